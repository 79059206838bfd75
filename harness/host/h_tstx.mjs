// C25: with verifyTransactions, nothing but the transaction the user asked for is broadcast.
import * as mc from './mc.mjs';
import { lib, M, net, run, fresh, eq } from './world.mjs';
const { section, next, violation, product, outcome, sample, S } = mc;
const { Colibri, Strategy } = M;
const A = '0x00aabbccddeeff00112233445566778899aabbcc', B = '0x01aabbccddeeff00112233445566778899aabbcc', F = '0xf39fd6e51aad88f6f4ce6ab8827279cfffb92266', G = '0x70997970c51812dc3a010c7d01b50e0d17dc79c8';
const upper = a => '0x' + a.slice(2).toUpperCase(), mixed = a => '0x' + a.slice(2).split('').map((c, i) => i % 2 ? c.toUpperCase() : c).join('');
// what the user gives (undefined: nothing) and what the signed transaction holds
const NUM = [0n, 1n, 10n, 16n, 255n, 256n, 0x16345785d8a0000n];
const hx = n => '0x' + n.toString(16);
const forms = n => [hx(n), '0x0' + n.toString(16), '0x' + n.toString(16).toUpperCase(), n, ...(n < 2n ** 53n ? [Number(n)] : [])];
const DATA = ['0x', '0x00', '0x0000', '0xab', '0x00ab', '0xabcd', '0xab00', '0xabcdef01'];
const none = { k: 'none' };
const pairs = {}; // field -> list of [user part, signed part, equal]
const add = (f, u, s, same) => (pairs[f] = pairs[f] || []).push([u, s, same]);
for (const s of [A, B, null, '0x', undefined]) {
  for (const u of [A, upper(A), mixed(A)]) add('to', { to: u }, { to: s }, s === A);
  for (const u of [{}, { to: null }, { to: undefined }]) add('to', u, { to: s }, !s || s === '0x');
}
for (const s of NUM) {
  for (const u of NUM) for (const f of forms(u)) add('value', { value: f }, { value: hx(s) }, u === s);
  add('value', {}, { value: hx(s) }, s === 0n);
}
for (const s of DATA) {
  for (const u of DATA) {
    add('data', { data: u }, { input: s }, u === s); add('data', { input: u }, { input: s }, u === s);
    add('data', { data: upper(u) }, { input: s }, u === s); add('data', { data: u, input: u }, { input: s }, u === s);
    add('data', { data: u, input: DATA[(DATA.indexOf(u) + 1) % DATA.length] }, { input: s }, false);
  }
  add('data', {}, { input: s }, s === '0x');
}
for (const [f, alias] of [['gas', 'gasLimit'], ['nonce', 'nonce'], ['gasPrice', 'gasPrice'], ['maxFeePerGas', 'maxFeePerGas'], ['maxPriorityFeePerGas', 'maxPriorityFeePerGas']])
  for (const s of NUM) {
    for (const u of NUM) for (const x of forms(u)) { add(f, { [f]: x }, { [f]: hx(s) }, u === s); if (alias !== f) add(f, { [alias]: x }, { [f]: hx(s) }, u === s); }
    add(f, {}, { [f]: hx(s) }, true);
    add(f, { [f]: hx(s) }, {}, false); // the signed transaction has no such field
  }
for (const s of [F, G]) { for (const u of [F, upper(F), mixed(F)]) add('from', { from: u }, { from: s }, s === F); add('from', {}, { from: s }, true); }
for (const s of ['0x1', '0x64', '0x2']) add('chainId', {}, { chainId: s }, s === '0x1');
const FIELDS = Object.keys(pairs);
const BASE = { user: { from: F, to: A, value: '0x10', data: '0xabcd' }, signed: { type: '0x2', from: F, to: A, value: '0x10', input: '0xabcd', gas: '0x5208', nonce: '0x7', maxFeePerGas: '0x64', maxPriorityFeePerGas: '0x2', chainId: '0x1', hash: '0x' + '77'.repeat(32), r: '0x1', s: '0x2', v: '0x0', yParity: '0x0' } };
const DROP = { to: ['to'], value: ['value'], data: ['data', 'input'], gas: ['gas', 'gasLimit'], nonce: ['nonce'], gasPrice: ['gasPrice'], maxFeePerGas: ['maxFeePerGas'], maxPriorityFeePerGas: ['maxPriorityFeePerGas'], from: ['from'], chainId: [] };
function build(chosen) {
  const u = { ...BASE.user }, s = { ...BASE.signed }; let same = true;
  for (const [f, [pu, ps, e]] of chosen) {
    for (const k of DROP[f]) delete u[k];
    delete s[f === 'data' ? 'input' : f];
    Object.assign(u, pu); for (const k in ps) if (ps[k] !== undefined) s[k] = ps[k];
    same = same && e;
  }
  return { u, s, same };
}
const RAW = '0x02f8' + 'ab'.repeat(40), HASH = '0x' + '77'.repeat(32);
const VIAS = ['rpc', 'request', 'VerifiedOnly', 'VerifyIfPossible', 'WarningWithFallback', 'chain'];
const txt = v => JSON.stringify(v, (k, x) => typeof x === 'bigint' ? x + 'n' : x);
async function send(u, s, same, via, o, what) {
  const sent = []; let signs = 0;
  await fresh({
    types: { eth_chainId: 4, eth_sendTransaction: o.type ?? 0, eth_sendRawTransaction: 2, colibri_decodeTransaction: 4 },
    verify: i => i.method === 'colibri_decodeTransaction' ? (o.decodeFails || !eq(JSON.parse(i.args), [RAW]) ? { final: 'error', error: 'invalid tx' } : { result: s }) : { result: '0x1' }, prove: {}
  });
  net.behave = c => { const j = JSON.parse(c.body); if (j.method === 'eth_sendRawTransaction' || j.method === 'eth_sendTransaction') sent.push(['node', j.method, j.params]); return o.nodeFails ? { body: '{"error":{"code":-32000,"message":"nonce too low"}}' } : { body: JSON.stringify({ id: 1, result: HASH }) }; };
  const cfg = { chainId: o.chainId ?? 1, prover: ['https://p0.test'], rpcs: ['https://r0.test'], beacon_apis: [], checkpointz: [], trusted_checkpoint: '0x' + '11'.repeat(32), verifyTransactions: true, warningHandler: async () => {} };
  if (!o.noProvider) cfg.fallback_provider = { request: async q => {
    if (q.method === 'eth_signTransaction') { signs++; if (o.mutate) Object.assign(q.params[0], o.mutate); if (o.signFails) throw new Error('user rejected'); return RAW; }
    sent.push(['wallet', q.method, q.params]); return HASH;
  } };
  if (Strategy[via]) cfg.proofStrategy = Strategy[via];
  if (via === 'chain') { cfg.chains = { 1: { proofStrategy: Strategy.WarningWithFallback, rpcs: ['https://r0.test'], beacon_apis: [] } }; }
  const cl = new Colibri(cfg);
  const user = { ...u };
  const r = await run(() => via === 'rpc' ? cl.rpc('eth_sendTransaction', [user]) : cl.request({ method: 'eth_sendTransaction', params: [user] }));
  const d = `${what} via=${via} asked=${txt(u)} signed=${txt(s)} ${JSON.stringify(o)} -> ${r.ok ? JSON.stringify(r.value) : r.text} sent=${txt(sent)}`;
  sample(d); outcome(txt([via, same, r.ok, sent, what]));
  const may = same && !o.signFails && !o.decodeFails && !o.noProvider;
  if (!may && sent.length) violation(sent[0][0] === 'wallet' ? 'tx:sent-without-verification' : 'tx:other-transaction-broadcast', d);
  if (may) {
    if (sent.length !== 1 || sent[0][0] !== 'node' || sent[0][1] !== 'eth_sendRawTransaction' || !eq(sent[0][2], [RAW])) violation(sent.length && sent[0][0] === 'wallet' ? 'tx:sent-without-verification' : sent.length ? 'tx:not-sent-exactly-once' : 'tx:requested-transaction-refused', d);
    if (o.nodeFails ? r.ok : !r.ok || r.value !== HASH) violation('tx:outcome-not-reported', d);
  } else if (r.ok) violation('tx:success-reported-without-sending', d);
  for (const f of lib.ended()) violation('tx:' + f, d);
}
for (const f of FIELDS)
  if (section('tx/field-' + f)) for (const p of pairs[f]) for (const via of S.thorough ? VIAS : ['rpc', 'request']) if (next()) { const { u, s, same } = build([[f, p]]); await send(u, s, same, via, {}, f); }
// two fields at once: a difference in one is found whatever the other one looks like
if (section('tx/pairs')) {
  const few = f => { const l = pairs[f], n = S.thorough ? 24 : 12, st = Math.max(1, Math.floor(l.length / n)); return l.filter((_, i) => i % st === 0); };
  for (let a = 0; a < FIELDS.length; a++) for (let b = a + 1; b < FIELDS.length; b++)
    for (const [p, q] of product(few(FIELDS[a]), few(FIELDS[b]))) if (next()) { const { u, s, same } = build([[FIELDS[a], p], [FIELDS[b], q]]); await send(u, s, same, 'request', {}, FIELDS[a] + '+' + FIELDS[b]); }
}
if (section('tx/ways'))
  for (const via of VIAS) for (const type of [0, 1, 2, 3]) for (const o of [{}, { signFails: true }, { decodeFails: true }, { noProvider: true }, { nodeFails: true }, { chainId: 100 }, { chainId: 'mainnet' }])
    for (const p of [[], [['to', [{ to: A }, { to: B }, false]]], [['value', [{}, { value: '0x1' }, false]]], [['data', [{ input: '0xab' }, { input: '0xabcd' }, false]]]])
      if (next()) { let { u, s, same } = build(p); if (o.chainId === 100) same = false; await send(u, s, same, via, { ...o, type }, 'ways'); }
// the signer gets an object of its own: what it does to it does not change what is compared
if (section('tx/mutating-signer'))
  for (const via of VIAS) for (const [f, u, m] of [['to', { to: A }, { to: B }], ['value', { value: '0x1' }, { value: '0x2' }], ['data', { data: '0xab' }, { input: '0xcd', data: '0xcd' }], ['value', {}, { value: '0x2' }], ['gas', { gas: '0x1' }, { gas: '0x2' }], ['nonce', { nonce: '0x1' }, { nonce: '0x2' }], ['from', { from: F }, { from: G }]])
    if (next()) { const sg = { ...m }; delete sg.data; const { u: us, s } = build([[f, [u, sg, false]]]); await send(us, s, false, via, { mutate: m }, 'mutating'); }
mc.finish();
