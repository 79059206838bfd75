// C26: subscriptions and filters of the TypeScript client under every pattern of head movement, failing call and
// cancellation point. Timers and calls are controlled by the explorer.
import * as mc from './mc.mjs';
import { M } from './world.mjs';
const { section, next, violation, product, outcome, sample, S } = mc;
const realImmediate = setImmediate;
const drain = () => new Promise(r => realImmediate(r));
let timers = [], tid = 0;
globalThis.setTimeout = (f, d) => { const t = { id: ++tid, f, d }; timers.push(t); return t.id; };
globalThis.clearTimeout = id => { timers = timers.filter(t => t.id !== id); };
globalThis.setInterval = (f, d) => { const t = { id: ++tid, f, d, every: true }; timers.push(t); return t.id; };
globalThis.clearInterval = globalThis.clearTimeout;
const block = n => ({ number: '0x' + n.toString(16), hash: '0xb' + n.toString(16).padStart(3, '0') });
const logsOf = n => [0, 1].map(i => ({ blockNumber: '0x' + n.toString(16), logIndex: '0x' + i }));
const INTERVAL = 5000, H0 = 20;

// one history: advances[k] before poll k; calls with an index in fail are answered by a failure; at call `act` the first
// subscription is cancelled while the call is on its way
async function history(kinds, advances, fail, act, o = {}) {
  timers = []; let head = H0, ncall = 0, cancelled = false; const q = [], got = new Map(), after = [], ranges = new Map();
  const em = new M.EventEmitter();
  const man = new M.SubscriptionManager((method, params) => new Promise((res, rej) => q.push({ method, params, res, rej })), em, { pollingInterval: INTERVAL });
  const ids = [], bad = [];
  let firstHead = new Map(), pollHead = [], nosched = false;
  em.on('message', m => { const s = m?.data?.subscription; if (m.type !== 'eth_subscription' || !ids.includes(s)) bad.push('unknown-subscription'); const r = m?.data?.result; (got.get(s) || got.set(s, []).get(s)).push(...(Array.isArray(r) ? r : [r])); if (cancelled && s === ids[0]) after.push(r); });
  const num = (x, d) => x === undefined ? d : x === 'latest' ? head : x === 'earliest' ? 0 : Number(BigInt(x));
  async function serve(calm) { // answers everything until the client is quiet
    let guard = 0;
    await drain();
    while (q.length) {
      if (++guard > 300) { bad.push('endless-polling'); break; }
      const c = q.shift(), i = calm ? -1 : ncall++; mc.step();
      if (i === act && !cancelled) { cancelled = true; await cancel(); }
      const f = fail[i];
      if (f === 'reject') c.rej(new Error('All nodes failed'));
      else if (f === 'null') c.res(null);
      else if (c.method === 'eth_blockNumber') { c.res('0x' + head.toString(16)); }
      else if (c.method === 'eth_getBlockByNumber') { const n = num(c.params[0]); c.res(n <= head ? { ...block(n), full: c.params[1] } : null); }
      else if (c.method === 'eth_getLogs') { const p = c.params[0], a = num(p.fromBlock, head), b = num(p.toBlock, head), l = []; if (['address', 'topics'].some(x => JSON.stringify(p[x]) !== JSON.stringify(par[x]))) bad.push('filter-not-passed'); for (let n = Math.max(a, 15); n <= Math.min(b, head); n++) l.push(...logsOf(n)); c.res(l); }
      else { bad.push('unexpected-call:' + c.method); c.rej(new Error('no')); }
      await drain();
    }
  }
  const isSub = k => k === 'newHeads' || k === 'logs';
  async function cancel() {
    const r = isSub(kinds[0]) ? man.handleRequest('eth_unsubscribe', [ids[0]]) : man.handleRequest('eth_uninstallFilter', [ids[0]]);
    if ((await r) !== true) bad.push('cancel-not-confirmed');
    const r2 = isSub(kinds[0]) ? man.handleRequest('eth_unsubscribe', [ids[0]]) : man.handleRequest('eth_uninstallFilter', [ids[0]]);
    if ((await r2) !== false) bad.push('cancelled-twice');
  }
  const par = o.params ?? (o.address ? { address: o.address } : {});
  for (const k of kinds) ids.push(await (k === 'newHeads' ? man.handleRequest('eth_subscribe', ['newHeads']) : k === 'logs' ? man.handleRequest('eth_subscribe', ['logs', { ...par }]) : k === 'blockFilter' ? man.handleRequest('eth_newBlockFilter', []) : man.handleRequest('eth_newFilter', [{ ...par }])));
  if (new Set(ids).size !== ids.length) bad.push('ids-not-unique');
  for (let i = 0; i <= kinds.length; i++) { // ids of the other kind and unknown ids are refused and stay as they are
    const id = i < kinds.length ? ids[i] : '0x777777';
    if (!(i < kinds.length && isSub(kinds[i])) && (await man.handleRequest('eth_unsubscribe', [id])) !== false) bad.push('foreign-id-cancelled');
    if (!(i < kinds.length && !isSub(kinds[i]))) {
      if ((await man.handleRequest('eth_uninstallFilter', [id])) !== false) bad.push('foreign-id-cancelled');
      if (await man.handleRequest('eth_getFilterChanges', [id]).then(() => true, () => false)) bad.push('foreign-id-polled');
    }
  }
  async function poll(calm, first) {
    const due = timers; timers = [];
    for (const t of due) { if (t.every) timers.push(t); if (first ? false : t.d !== INTERVAL) bad.push('polling-interval'); t.f(); }
    const calls = [];
    for (let i = 0; i < kinds.length; i++) if (!isSub(kinds[i])) for (let r = 0; r < (o.overlap && !calm ? 2 : 1); r++)
      calls.push(man.handleRequest('eth_getFilterChanges', [ids[i]]).then(v => { if (!Array.isArray(v)) { bad.push('filter-without-list'); return; } (got.get(ids[i]) || got.set(ids[i], []).get(ids[i])).push(...v); }, e => { if (!(cancelled && i === 0)) rejected.push(i); else if (e?.code !== -32000 && !/not found/i.test(e?.message)) bad.push('other-error'); }));
    await serve(calm);
    await Promise.all(calls);
    await serve(calm);
    const want = kinds.filter((k, i) => isSub(k) && !(cancelled && i === 0)).length;
    if (timers.length !== want) bad.push(timers.length < want ? 'subscription-died' : 'timer-left');
  }
  const rejected = [];
  for (let k = 0; k < advances.length; k++) { head += advances[k]; await poll(false, k === 0); }
  if (act === 'end' && !cancelled) { cancelled = true; await cancel(); }
  for (let k = 0; k < 2; k++) { if (k) head += 1; await poll(true, false); }
  const d = `${kinds} head=${H0} advances=${advances} failing=${JSON.stringify(fail)} cancel=${act} ${JSON.stringify(o)} got=${JSON.stringify([...got].map(([a, b]) => [a, b.map(x => typeof x === 'string' ? x : x && (x.hash || x.blockNumber + '/' + x.logIndex))]))} head at the end=${head}`;
  sample(d); outcome([kinds, advances, fail, act, [...got].map(([a, b]) => [a, b.length]), bad]);
  for (const b of new Set(bad)) violation('subs:' + b, d);
  if (after.length) violation('subs:message-after-cancel', d);
  kinds.forEach((k, i) => {
    const l = got.get(ids[i]) || [], gone = cancelled && i === 0;
    const isLog = k === 'logs' || k === 'logFilter';
    const seq = isLog ? l.map(x => 2 * Number(x.blockNumber) + Number(x.logIndex)) : l.map(x => k === 'blockFilter' ? parseInt(String(x).slice(3), 16) : Number(x.number));
    if (l.some(x => x === null || x === undefined)) { violation(`subs:${k}:empty-event`, d); return; }
    for (let j = 1; j < seq.length; j++) if (seq[j] !== seq[j - 1] + 1) { violation(`subs:${k}:${seq[j] <= seq[j - 1] ? 'delivered-twice-or-out-of-order' : 'lost'}`, d); return; }
    if (k === 'newHeads' && l.some(x => x.full !== true)) violation('subs:newHeads:not-the-full-block', d);
    if (gone) return;
    if (rejected.includes(i)) violation(`subs:${k}:poll-rejected`, d);
    const last = isLog ? 2 * head + 1 : head;
    if (!seq.length || seq[seq.length - 1] !== last) { violation(`subs:${k}:lost`, d); return; }
    // where it starts: at the latest with the block after the first head the client could see
    const from = par.fromBlock === undefined || par.fromBlock === 'latest' ? null : par.fromBlock === 'earliest' ? 15 : Number(par.fromBlock);
    const h = seenHead(fail, advances, kinds);
    const first = isLog ? Math.floor(seq[0] / 2) : seq[0];
    if (isLog && from !== null) { if (first !== from) violation(`subs:${k}:start`, d); }
    else if (first > h + 1 || first < H0) violation(`subs:${k}:start`, d + ' first=' + first + ' seen=' + h);
  });
}
// the latest block at which a client that could read the head at all must have started: the head of the first poll without any failure
// (conservative: calls before it failed), known only for histories whose first calls succeed
function seenHead(fail, adv, kinds) { let h = H0; if (!Object.keys(fail).some(i => +i < 2 * kinds.length)) return h + adv[0]; return h + adv.reduce((a, b) => a + b, 0) + 1; }
const FAILS = (R, two) => { const l = [{}]; for (let i = 0; i < R; i++) for (const k of ['reject', 'null']) { l.push({ [i]: k }); if (two) for (let j = i + 1; j < R; j++) l.push({ [i]: k, [j]: 'reject' }); } return l; };
const K = S.thorough ? 4 : 3;
for (const kind of ['newHeads', 'logs', 'blockFilter', 'logFilter']) {
  if (section('subs/failures-' + kind)) for (const adv of product(...Array(K + 1).fill([0, 1, 2]))) for (const f of FAILS(S.thorough ? 12 : 9, true)) if (next()) await history([kind], adv, f, null);
  if (section('subs/cancel-' + kind)) for (const adv of product(...Array(K).fill([0, 1, 2]))) for (const f of FAILS(8, false)) for (const a of [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 'end']) if (next()) await history([kind], adv, f, a);
}
for (const kinds of [['newHeads', 'newHeads'], ['newHeads', 'logs'], ['logs', 'newHeads'], ['blockFilter', 'logFilter'], ['logFilter', 'blockFilter'], ['blockFilter', 'newHeads'], ['logs', 'logFilter']])
  if (section('subs/two-' + kinds.join('+'))) for (const adv of product(...Array(3).fill([0, 1, 2]))) for (const f of FAILS(10, false)) for (const a of [null, 1, 3, 6, 'end']) if (next()) await history(kinds, adv, f, a);
if (section('subs/from-block')) for (const kind of ['logs', 'logFilter']) for (const adv of product(...Array(K).fill([0, 1, 2]))) for (const f of FAILS(8, false)) for (const fromBlock of ['0x10', '0x14', 'latest', 'earliest', undefined]) for (const address of [undefined, '0xabc']) if (next()) await history([kind], adv, f, null, { address, params: { ...(fromBlock ? { fromBlock } : {}), ...(address ? { address, topics: [null, ["0x1", "0x2"]] } : {}) } });
if (section('subs/overlap')) for (const kind of ['blockFilter', 'logFilter']) for (const adv of product(...Array(3).fill([0, 1, 2]))) for (const f of FAILS(10, false)) if (next()) await history([kind], adv, f, null, { overlap: true });
// subscriptions and filters come and go: every sequence of creating, cancelling and polling; nobody fails
async function churn(ops) {
  timers = []; let head = H0; const em = new M.EventEmitter(), bad = new Set(), live = [], all = [];
  const answer = (m, p) => { mc.step(); const num = x => x === undefined || x === 'latest' ? head : Number(BigInt(x));
    if (m === 'eth_blockNumber') return '0x' + head.toString(16);
    if (m === 'eth_getBlockByNumber') return num(p[0]) <= head ? block(num(p[0])) : null;
    const l = []; for (let n = num(p[0].fromBlock); n <= num(p[0].toBlock); n++) l.push(...logsOf(n).map(x => ({ ...x, topics: p[0].topics }))); return l; };
  const man = new M.SubscriptionManager(async (m, p) => answer(m, p), em, { pollingInterval: INTERVAL });
  em.on('message', m => { const s = live.find(x => x.sub && x.id === m?.data?.subscription); if (!s) { bad.add('message-for-nobody'); return; } const r = m.data.result; s.got.push(...(Array.isArray(r) ? r : [r])); });
  const make = { N: ['eth_subscribe', ['newHeads']], L: ['eth_subscribe', ['logs', {}]], B: ['eth_newBlockFilter', []], F: ['eth_newFilter', [{}]] };
  for (const o of ops) {
    if (make[o]) {
      const tag = ['0x' + (all.length + 1).toString(16)], a = o === 'L' ? ['logs', { topics: tag }] : o === 'F' ? [{ topics: tag }] : make[o][1]; // each has a filter of its own
      const id = await man.handleRequest(make[o][0], a);
      if (live.some(x => x.id === id)) bad.add('id-of-a-living-one-given-again');
      const s = { id, kind: o, sub: o === 'N' || o === 'L', got: [], polls: 0, tag }; live.push(s); all.push(s);
    } else if (o === 'x' || o === 'y') {
      const [s] = live.splice(o === 'x' ? 0 : live.length - 1, 1);
      if ((await man.handleRequest(s.sub ? 'eth_unsubscribe' : 'eth_uninstallFilter', [s.id])) !== true) bad.add('cancel-not-confirmed');
      if ((await man.handleRequest(s.sub ? 'eth_unsubscribe' : 'eth_uninstallFilter', [s.id])) !== false) bad.add('cancelled-twice');
    } else {
      head++;
      const due = timers; timers = []; for (const t of due) t.f();
      for (const s of live.filter(x => !x.sub)) { const v = await man.handleRequest('eth_getFilterChanges', [s.id]).catch(e => null); if (!Array.isArray(v)) bad.add('filter-died'); else s.got.push(...v); }
      await drain(); await drain();
      for (const s of live) s.polls++;
      if (timers.length !== live.filter(x => x.sub).length) bad.add(timers.length < live.filter(x => x.sub).length ? 'subscription-died' : 'timer-left');
    }
  }
  const d = `operations ${ops.join('')}: ${JSON.stringify(all.map(s => [s.id, s.kind, s.got.length]))}`;
  for (const s of live) {
    const isLog = s.kind === 'L' || s.kind === 'F', seq = s.got.map(x => isLog ? 2 * Number(x.blockNumber) + Number(x.logIndex) : s.kind === 'B' ? parseInt(String(x).slice(3), 16) : Number(x.number));
    if (isLog && s.got.some(x => JSON.stringify(x.topics) !== JSON.stringify(s.tag))) bad.add('logs-of-another-filter');
    for (let j = 1; j < seq.length; j++) if (seq[j] !== seq[j - 1] + 1) bad.add(s.kind + ':' + (seq[j] <= seq[j - 1] ? 'delivered-twice-or-out-of-order' : 'lost'));
    if (s.polls > 1 && (!seq.length || seq[seq.length - 1] !== (isLog ? 2 * head + 1 : head) || seq.length < (isLog ? 2 : 1) * (s.polls - 1))) bad.add(s.kind + ':lost');
  }
  sample(d); outcome([ops, all.map(s => s.got.length)]);
  for (const b of bad) violation('subs:churn:' + b, d);
}
for (const first of ['N', 'L', 'B', 'F']) if (section('subs/churn-' + first)) {
  const rec = async (ops, n) => {
    if (ops.length >= (S.thorough ? 8 : 6) && ops[ops.length - 1] === 'p') { if (next()) await churn([...ops, 'p']); }
    if (ops.length === (S.thorough ? 9 : 7)) return;
    for (const o of 'NLBF') if (n < 3) await rec([...ops, o], n + 1);
    if (n > 0) await rec([...ops, 'x'], n - 1);
    if (n > 1) await rec([...ops, 'y'], n - 1);
    if (n > 0) await rec([...ops, 'p'], n);
  };
  await rec([first], 1);
}
mc.finish();
