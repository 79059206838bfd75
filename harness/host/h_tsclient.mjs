// C23, TypeScript client: every pattern of failing servers, every outcome of the library, every strategy.
import * as mc from './mc.mjs';
import { lib, M, net, run, fresh, eq } from './world.mjs';
const { section, next, violation, product, outcome, sample, S } = mc;
const { Colibri, Strategy, MethodType } = M;
const T = { UNDEF: 0, PROOFABLE: 1, UNPROOFABLE: 2, NOT_SUPPORTED: 3, LOCAL: 4 };
const B4 = ['good', 'bad', '500', 'reject'];
const names = (k, n) => Array.from({ length: n }, (_, i) => `https://${k}${i}.test`);
const bodyOf = b => b === 'good' ? { body: 'good' } : b === 'bad' ? { body: 'bad' } : b === '500' ? { status: 500, body: 'oops' } : { reject: true };
const base = u => (u.match(/^https:\/\/[a-z]+\d+\.test/) || [''])[0];
function faults(what, d) { for (const f of lib.ended()) violation(`${what}:${f}`, d); }
const stuck = r => !r.ok && /STUCK/.test(r.text);

// --- requests of the library: which servers are asked, in which case does the call succeed
const spec = (type, o = {}) => ({ type, url: 'eth/v1/x?y=1', method: 'get', encoding: 'json', bad: r => r.toString() !== 'good', ...o });
const poolOf = (type, cfg) => type === 'checkpointz' ? [...cfg.checkpointz, ...cfg.beacon_apis, ...cfg.prover] : type === 'beacon_api' ? [...cfg.beacon_apis, ...cfg.prover] : type === 'prover' ? cfg.prover : cfg.rpcs;
async function requestCase(type, cfg, pool, beh, o, via, what, opts = {}) {
  const specs = opts.specs || [spec(type, o)];
  await fresh({ verify: () => ({ rounds: opts.rounds || [specs], result: '0x7' }), prove: { rounds: opts.rounds || [specs], proof: Uint8Array.from([1, 0, 255]) } });
  const bad = new Set(); let again = null, alien = null, wrong = null;
  net.behave = c => {
    const b = base(c.url), i = pool.indexOf(b);
    if (i < 0) { alien = c.url; return { reject: true }; }
    if (bad.has(b)) again = c.url;
    const u = o.url !== undefined ? o.url : specs[0].url;
    const want = u ? b + '/' + u.replace(/^\//, '') : b;
    if (c.url !== want) wrong = c.url + ' instead of ' + want;
    if (c.method !== (o.method || 'get').toUpperCase()) wrong = 'method ' + c.method;
    if (o.payload && !eq(JSON.parse(c.body), o.payload)) wrong = 'payload ' + c.body;
    if (!o.payload && c.body) wrong = 'payload ' + c.body;
    if ((o.encoding === 'ssz') !== (c.accept === 'application/octet-stream')) wrong = 'accept ' + c.accept;
    if (beh[i] === 'bad') bad.add(b);
    return bodyOf(beh[i]);
  };
  const cl = new Colibri({ chainId: 1, trusted_checkpoint: '0x' + '11'.repeat(32), ...cfg });
  const r = await run(() => via === 'verify' ? cl.verifyProof('eth_x', [1], Uint8Array.from([1, 2])) : cl.createProof('eth_x', [1]));
  const d = `${what} type=${type} via=${via} servers=${pool.map((s, i) => s + '=' + beh[i])} -> ${r.ok ? 'ok' : r.text}`;
  sample(d); outcome([type, via, beh, r.ok, net.calls.length]);
  const can = beh.includes('good');
  if (stuck(r)) violation('ts-request:never-ends', d);
  else if (can && !r.ok) violation('ts-request:fails-although-a-server-answers', d);
  else if (!can && r.ok) violation('ts-request:succeeds-without-answer', d);
  if (r.ok && via === 'verify' && r.value !== '0x7') violation('ts-request:other-result', d);
  if (r.ok && via === 'prove' && !eq(Array.from(r.value), [1, 0, 255])) violation('ts-request:other-proof', d);
  if (again) violation('ts-request:excluded-server-asked-again', d + ' ' + again);
  if (alien) violation('ts-request:server-not-configured', d + ' ' + alien);
  if (wrong) violation('ts-request:wrong-request', d + ' ' + wrong);
  faults('ts-request', d);
}
for (const type of ['checkpointz', 'beacon_api', 'prover', 'eth_rpc'])
  if (section('client/servers-' + type)) {
    const m = S.thorough ? 3 : 2, R = n => Array.from({ length: n + 1 }, (_, i) => i);
    for (const [c, b, p, q] of product(type === 'checkpointz' ? R(m) : [1], type === 'checkpointz' || type === 'beacon_api' ? R(m) : [1], type === 'eth_rpc' ? [1] : R(type === 'prover' ? 4 : m), type === 'eth_rpc' ? R(4) : [1])) {
      const cfg = { checkpointz: names('c', c), beacon_apis: names('b', b), prover: names('p', p), rpcs: names('r', q) };
      const pool = poolOf(type, cfg);
      if (pool.length > (S.thorough ? 7 : 6)) continue;
      for (const beh of product(...pool.map(() => B4)))
        for (const via of ['verify', 'prove'])
          if (next()) await requestCase(type, cfg, pool, beh, {}, via, 'servers');
      if (!pool.length) for (const via of ['verify', 'prove']) if (next()) await requestCase(type, cfg, pool, [], {}, via, 'servers');
    }
  }
if (section('client/excluded')) // nodes excluded before: none of them is asked, each of the others is as long as no one answers
  for (const type of ['checkpointz', 'beacon_api', 'prover', 'eth_rpc']) for (let n = 1; n <= (S.thorough ? 5 : 4); n++)
    for (let mask = 0; mask < 1 << n; mask++) for (let good = 0; good <= n; good++) for (const via of ['verify', 'prove']) if (next()) {
      const k = { checkpointz: 'checkpointz', beacon_api: 'beacon_apis', prover: 'prover', eth_rpc: 'rpcs' }[type], cfg = { checkpointz: [], beacon_apis: [], prover: [], rpcs: [], [k]: names('s', n) }, pool = names('s', n);
      await fresh({ verify: () => ({ rounds: [[spec(type, { mask })]], result: '0x7' }), prove: { rounds: [[spec(type, { mask })]], proof: Uint8Array.from([1, 0, 255]) } });
      const asked = new Set();
      net.behave = c => { const i = pool.indexOf(base(c.url)); asked.add(i); return i === good ? { body: 'good' } : { status: 500, body: 'oops' }; };
      const cl = new Colibri({ chainId: 1, trusted_checkpoint: '0x' + '11'.repeat(32), ...cfg });
      const r = await run(() => via === 'verify' ? cl.verifyProof('eth_x', [1], Uint8Array.from([1, 2])) : cl.createProof('eth_x', [1]));
      const free = i => i >= 0 && i < n && !(mask >> i & 1), d = `${type} ${via} ${n} servers, excluded ${mask.toString(2)}, server ${good} answers, asked ${[...asked]} -> ${r.ok ? 'ok' : r.text}`;
      sample(d); outcome([type, via, n, mask, good, r.ok]);
      if ([...asked].some(i => !free(i))) violation('ts-request:excluded-server-asked-again', d);
      if (r.ok !== free(good)) violation(r.ok ? 'ts-request:succeeds-without-answer' : 'ts-request:fails-although-a-server-answers', d);
      if (!r.ok && pool.some((_, i) => free(i) && !asked.has(i))) violation('ts-request:server-not-tried', d);
      faults('ts-request', d);
    }
if (section('client/forms')) {
  const payloads = [undefined, { jsonrpc: '2.0', method: 'eth_x', params: ['0x1', { a: ['ü€😀'] }], id: 1 }];
  for (const type of ['checkpointz', 'beacon_api', 'prover', 'eth_rpc', 'rest_api'])
    for (const [url, enc, pl, beh] of product(['', 'a/b', '/a/b', 'a?x=1&y=%20'], ['json', 'ssz'], payloads, [['good', 'good'], ['bad', 'good'], ['500', 'good'], ['bad', 'bad']]))
      for (const via of ['verify', 'prove'])
        if (next()) {
          const cfg = { checkpointz: names('c', 1), beacon_apis: names('b', 1), prover: names('p', 2), rpcs: names('r', 2) };
          const pool = poolOf(type, cfg), bb = pool.map((_, i) => beh[Math.min(i, beh.length - 1)]);
          await requestCase(type, cfg, pool, bb, { url, encoding: enc, payload: pl, method: pl ? 'post' : 'get' }, via, 'forms');
        }
}
// several open requests and rounds; every server's behaviour per request
if (section('client/rounds')) {
  const B = ['good', 'bad', 'reject'];
  for (const shape of [[2], [1, 1], [2, 1], [1, 2]])
    for (const beh of product(...Array(shape.reduce((a, b) => a + b) * 2).fill(B)))
      for (const via of ['verify', 'prove'])
        for (const types of [['beacon_api', 'eth_rpc'], ['eth_rpc', 'eth_rpc']])
          if (next()) {
            let k = 0;
            const rounds = shape.map(n => Array.from({ length: n }, () => { const i = k++; return spec(types[i % 2], { url: 'q' + i, bad: r => r.toString() !== 'good' + i }); }));
            await fresh({ verify: () => ({ rounds, result: { a: [1, null] } }), prove: { rounds, proof: Uint8Array.from([9]) } });
            const cfg = { checkpointz: [], beacon_apis: names('b', 2), prover: [], rpcs: names('r', 2) };
            net.behave = c => { const q = +c.url.match(/q(\d+)$/)[1], s = +base(c.url).match(/(\d)\.test/)[1], b = beh[q * 2 + s]; return b === 'good' ? { body: 'good' + q } : b === 'bad' ? { body: 'bad' } : { reject: true }; };
            const cl = new Colibri({ chainId: 1, trusted_checkpoint: '0x' + '11'.repeat(32), ...cfg });
            const r = await run(() => via === 'verify' ? cl.verifyProof('eth_x', [1], Uint8Array.from([1, 2])) : cl.createProof('eth_x', [1]));
            const can = Array.from({ length: k }, (_, i) => beh[2 * i] === 'good' || beh[2 * i + 1] === 'good').every(x => x);
            const d = `rounds ${JSON.stringify(shape)} ${types} ${via} ${beh} -> ${r.ok ? 'ok' : r.text}`;
            outcome([shape, types, beh, r.ok]);
            if (stuck(r)) violation('ts-request:never-ends', d);
            else if (can !== r.ok) violation(can ? 'ts-request:fails-although-a-server-answers' : 'ts-request:succeeds-without-answer', d);
            faults('ts-request', d);
          }
}
// the cache of the host: same outcome as without, served data is what was stored for the same request
if (section('client/cache'))
  for (const beh of product(B4, B4))
    for (const [via, twice, cacheable] of product(['verify', 'prove'], [false, true], [true, false]))
      if (next()) {
        const specs = [spec('beacon_api', { url: 'a' }), spec('beacon_api', { url: 'b' })];
        const store = new Map(); let sets = 0;
        const cache = { cacheable: () => cacheable, get: q => store.get(q.url), set: (q, d) => { sets++; store.set(q.url, d); } };
        const cfg = { checkpointz: [], beacon_apis: names('b', 2), prover: [], rpcs: [], cache };
        net.behave = c => bodyOf(beh[+base(c.url).match(/(\d)\.test/)[1]]);
        const can = beh.includes('good');
        for (let k = 0; k < (twice ? 2 : 1); k++) {
          await fresh({ verify: () => ({ rounds: [specs], result: '0x7' }), prove: { rounds: [specs], proof: Uint8Array.from([9]) } });
          const cl = new Colibri({ chainId: 1, trusted_checkpoint: '0x' + '11'.repeat(32), ...cfg });
          const r = await run(() => via === 'verify' ? cl.verifyProof('eth_x', [1], Uint8Array.from([1, 2])) : cl.createProof('eth_x', [1]));
          const d = `cache cacheable=${cacheable} run ${k} ${via} ${beh} -> ${r.ok ? 'ok' : r.text}`;
          outcome(['cache', beh, via, k, r.ok, net.calls.length]);
          if (stuck(r)) violation('ts-cache:never-ends', d);
          else if (can !== r.ok) violation('ts-cache:outcome-differs', d);
          if (k && can && cacheable && net.calls.length) violation('ts-cache:not-used', d);
          if (!cacheable && (sets || (k && can && !net.calls.length))) violation('ts-cache:used-although-not-cacheable', d);
          faults('ts-cache', d);
        }
      }
// --- rpc: the answer is the verified one
const RES = [null, false, 0, '0x1', '', { a: { b: [1, null, 'é'] } }, [], ['0x', {}]];
const PB = ['ok', '500', 'reject'], RB = ['ok', 'err', 'errstr', '500', 'reject', 'junk'];
const rpcBody = (b, v) => b === 'ok' ? { body: JSON.stringify({ id: 1, jsonrpc: '2.0', result: v }) } : b === 'err' ? { body: JSON.stringify({ id: 1, error: { code: -32000, message: 'node says no' } }) } : b === 'errstr' ? { body: JSON.stringify({ error: 'node says no' }) } : b === '500' ? { status: 500, body: 'x' } : b === 'junk' ? { body: '<html>' } : { reject: true };
const ARGS = [[], ['0x1'], ['ü€😀', { x: [1, null, true] }], [{ address: '0xAb', topics: [null, ['0x1']] }, 'latest'], ['a"\\\n\u0001']];
async function rpcCase(type, pb, rb, res, args, o, what) {
  const cfg = { chainId: o.chainId ?? 1, prover: names('p', pb.length), rpcs: names('r', rb.length), beacon_apis: [], checkpointz: [], trusted_checkpoint: o.cp, checkpoint_witness_keys: o.keys, zk_proof: o.zk, verify: o.verify };
  const method = o.method || 'eth_test';
  const mem = await fresh({ type, verify: i => o.fail ? { final: 'error', error: 'bad "proof"' } : { result: res }, prove: o.proveFail ? { final: 'error', error: 'no proof' } : { proof: Uint8Array.from([7, 0, 7]) } });
  if (o.state) mem.set('states_' + cfg.chainId, Uint8Array.from([0, 1, 171]));
  const contacted = []; let wrong = null;
  net.behave = c => {
    const k = base(c.url)[8], i = +base(c.url).slice(9, 10); contacted.push(k + i);
    let j = {}; try { j = JSON.parse(c.body); } catch { wrong = 'body ' + c.body; }
    if (c.method !== 'POST' || j.method !== method || !eq(j.params, o.params ?? args) || j.jsonrpc !== '2.0' || c.url !== base(c.url)) wrong = JSON.stringify(c);
    if (k === 'p') { if (c.accept !== 'application/octet-stream' || j.c4 !== (o.state ? '0x0001ab' : '0x') || j.zk_proof !== !!o.zk || j.signers !== (o.keys || '0x')) wrong = JSON.stringify(c); const b = pb[i]; return b === 'ok' ? { body: Buffer.from([0, 200, i]) } : b === '500' ? { status: 500, body: 'x' } : { reject: true }; }
    if (c.accept !== 'application/json') wrong = JSON.stringify(c);
    return rpcBody(rb[i], ['rpc', i]);
  };
  const cl = new Colibri(cfg);
  const r = await run(() => cl.rpc(method, args));
  const d = `${what} type=${type} provers=${pb} rpcs=${rb} args=${JSON.stringify(args)} ${JSON.stringify(o)} -> ${r.ok ? JSON.stringify(r.value) : r.text}`;
  sample(d); outcome([type, pb, rb, r.ok, r.ok ? r.value : 0, contacted]);
  const firstP = pb.indexOf('ok'), firstR = rb.indexOf('ok');
  let wantOk, wantVal, proof = null, direct = false;
  if (type === T.PROOFABLE && o.verify && !o.verify(method, args)) direct = true;
  if (type === T.UNPROOFABLE) direct = true;
  if (direct) { wantOk = firstR >= 0; wantVal = ['rpc', firstR]; }
  else if (type === T.PROOFABLE) {
    if (pb.length) { wantOk = firstP >= 0; proof = [0, 200, firstP]; } else { wantOk = !o.proveFail; proof = [7, 0, 7]; }
    if (o.fail) wantOk = false; wantVal = res;
  } else if (type === T.LOCAL) { wantOk = !o.fail; wantVal = res; proof = []; }
  else wantOk = false;
  if (stuck(r)) violation('ts-rpc:never-ends', d);
  else if (r.ok !== wantOk) violation(r.ok ? 'ts-rpc:answer-without-verification' : 'ts-rpc:fails-although-answerable', d);
  else if (r.ok && !eq(r.value, wantVal)) violation('ts-rpc:other-answer', d);
  if (wrong) violation('ts-rpc:wrong-request', d + ' ' + wrong);
  const ver = lib.log.filter(x => x[0] === 'verify-create');
  if (r.ok && !direct) {
    const i = ver[0] && ver[0][1];
    if (ver.length !== 1) violation('ts-rpc:not-verified', d);
    else if (!eq(Array.from(Buffer.from(i.proof, 'latin1')), proof) || i.method !== method || !eq(tryParse(i.args), args) || i.chain !== String(cfg.chainId) || i.cp !== (o.cp ?? null) || i.keys !== (o.keys ?? null)) violation('ts-rpc:verified-something-else', d + ' ' + JSON.stringify(i));
  }
  if (!direct && contacted.some(c => c[0] === 'r')) violation('ts-rpc:unverified-server-asked', d);
  if (type !== T.PROOFABLE && contacted.some(c => c[0] === 'p')) violation('ts-rpc:prover-asked', d);
  const seq = direct ? contacted.filter(c => c[0] === 'r') : contacted.filter(c => c[0] === 'p');
  const lim = direct ? (firstR < 0 ? rb.length : firstR + 1) : (firstP < 0 ? pb.length : firstP + 1);
  if (!eq(seq, seq.map((_, i) => (direct ? 'r' : 'p') + i)) || seq.length > lim) violation('ts-rpc:server-order', d + ' ' + contacted);
  faults('ts-rpc', d);
}
if (section('client/rpc-provers')) {
  for (let n = 0; n <= (S.thorough ? 5 : 4); n++) for (const pb of n ? product(...Array(n).fill(PB)) : [[]])
    for (const fail of [false, true]) for (const type of [0, 1, 2, 3, 4, 5]) if (next()) await rpcCase(type, pb, ['ok'], '0x5', ['0x1'], { fail }, 'provers');
}
if (section('client/rpc-nodes')) {
  for (let n = 0; n <= (S.thorough ? 4 : 3); n++) for (const rb of n ? product(...Array(n).fill(RB)) : [[]])
    for (const o of [{}, { verify: () => false }]) for (const type of [1, 2]) if (next()) await rpcCase(type, ['ok'], rb, '0x5', ['0x1'], o, 'nodes');
}
if (section('client/rpc-values'))
  for (const [type, res, args] of product([1, 2, 4], RES, ARGS)) for (const o of product([undefined, '0x' + 'ab'.repeat(32)], [undefined, '0x' + '12'.repeat(20)], [false, true], [false, true], [1, 100, 11155111], [true, false]))
    if (next()) await rpcCase(type, o[5] ? ['500', 'ok'] : [], ['ok'], res, args, { cp: o[0], keys: o[1], zk: o[2], state: o[3], chainId: o[4], verify: o[5] ? undefined : () => true }, 'values');
if (section('client/rpc-local-proof'))
  for (const [proveFail, fail, args] of product([false, true], [false, true], ARGS)) if (next()) await rpcCase(1, [], [], '0x5', args, { proveFail, fail }, 'local proof');
if (section('client/rpc-logs'))
  for (const res of RES) if (next()) await rpcCase(1, ['ok'], [], res, [{ transactionIndex: '0x1', blockNumber: '0x2', data: '0x' }], { method: 'eth_verifyLogs', params: [{ transactionIndex: '0x1', blockNumber: '0x2' }] }, 'logs');
// --- checkpoint of a fresh client
if (section('client/checkpoint')) {
  const CB = ['ok', 'empty', '500', 'reject', 'junk'];
  for (const [c, b, p] of product([1, 2], [0, 1], [0, 1])) for (const beh of product(...Array(c + b + p).fill(CB)))
    for (const [state, given] of product([false, true], [false, true]))
      if (next()) {
        const cfg = { chainId: 1, checkpointz: names('c', c), beacon_apis: names('b', b), prover: [], rpcs: names('r', 1), trusted_checkpoint: given ? '0x' + '22'.repeat(32) : undefined };
        if (p) cfg.prover = names('p', 1);
        const pool = [...cfg.checkpointz, ...cfg.beacon_apis, ...cfg.prover];
        const mem = await fresh({ type: T.LOCAL, verify: () => ({ result: '0x1' }) });
        if (state) mem.set('states_1', Uint8Array.from([1]));
        net.behave = q => { const i = pool.indexOf(base(q.url)); const x = beh[i]; return x === 'ok' ? { body: JSON.stringify({ data: { finalized: { root: '0x' + (0x30 + i).toString(16).repeat(32) } } }) } : x === 'empty' ? { body: '{"data":null}' } : x === '500' ? { status: 500, body: '' } : x === 'junk' ? { body: '<html>' } : { reject: true }; };
        const cl = new Colibri(cfg);
        const r = await run(() => cl.rpc('eth_chainId', []));
        const d = `checkpoint state=${state} given=${given} ${pool.map((s, i) => s + '=' + beh[i])} -> ${r.ok ? JSON.stringify(r.value) : r.text} ${JSON.stringify(lib.checkpoints)}`;
        outcome(['cp', beh, state, given, r.ok, lib.checkpoints]);
        const first = beh.indexOf('ok');
        const need = !state && !given, want = given ? cfg0(22) : need && first >= 0 ? '0x' + (0x30 + first).toString(16).repeat(32) : null;
        if (need && first >= 0 && !r.ok) violation('ts-checkpoint:fails-although-a-server-answers', d);
        if (lib.checkpoints.some(x => x[0] !== '1' || x[1] !== want)) violation('ts-checkpoint:other-checkpoint', d);
        if (r.ok && need && first >= 0 && !lib.checkpoints.length) violation('ts-checkpoint:not-set', d);
        if (!need && net.calls.length) violation('ts-checkpoint:fetched-although-not-needed', d);
        faults('ts-checkpoint', d);
      }
}
function cfg0(n) { return '0x' + String(n).repeat(32); }
// --- strategies of the EIP-1193 interface
if (section('client/strategy')) {
  const VAL = [[1, 1], ['0x1', '0x2'], [{ a: 1, b: 2 }, { a: 1, b: 2 }], [{ a: 1, b: 2 }, { b: 2, a: 1 }], [{ a: 1, b: { c: [1, 2] } }, { a: 1, b: { c: [1, 3] } }], [[1, 2], [1]], [[1], [1, 2]], [null, '0x1'], ['0x1', null], [null, null], [{}, []], [false, true], [[{ a: null }], [{ a: '0x0' }]], ['0x1', 1], [[null], [null]], [0, null], ['', null]];
  for (const [strat, type, prov, fail, nodes, vals] of product(['VerifiedOnly', 'VerifyIfPossible', 'WarningWithFallback', 'default', 'chain-VerifiedOnly'], [0, 1, 2, 3, 4], [false, true], [false, true], [[], ['ok'], ['reject', 'ok'], ['500']], VAL))
    if (next()) {
      const warned = [], asked = [];
      const cfg = { chainId: 1, prover: names('p', 1), rpcs: names('r', nodes.length), beacon_apis: [], checkpointz: [], trusted_checkpoint: '0x' + '11'.repeat(32), warningHandler: async (q, m) => { warned.push(m); } };
      if (strat in Strategy) cfg.proofStrategy = Strategy[strat];
      if (strat === 'chain-VerifiedOnly') { cfg.proofStrategy = Strategy.WarningWithFallback; cfg.chains = { 1: { proofStrategy: Strategy.VerifiedOnly } }; }
      if (prov) cfg.fallback_provider = { request: async q => { asked.push(q); return vals[1]; } };
      await fresh({ types: { eth_chainId: 4 }, type, verify: i => i.method === 'eth_chainId' ? { result: '0x1' } : fail ? { final: 'error', error: 'bad proof' } : { result: vals[0] }, prove: {} });
      net.behave = c => { const k = base(c.url)[8], i = +base(c.url).slice(9, 10); return k === 'p' ? { body: 'proof' } : rpcBody(nodes[i], vals[1]); };
      const cl = new Colibri(cfg);
      const r = await run(() => cl.request({ method: 'eth_test', params: ['0x1'] }));
      const d = `strategy=${strat} type=${type} fallback=${prov} verification=${!fail} nodes=${nodes} verified=${JSON.stringify(vals[0])} node=${JSON.stringify(vals[1])} -> ${r.ok ? JSON.stringify(r.value) : r.text} warnings=${warned.length}`;
      outcome([strat, type, prov, fail, nodes, vals, r.ok, warned.length]); sample(d);
      const s = strat === 'default' ? 'VerifyIfPossible' : strat === 'chain-VerifiedOnly' ? 'VerifiedOnly' : strat;
      const unv = prov && s !== 'VerifiedOnly' ? true : nodes.includes('ok');
      const verifiable = type === 1 || type === 4;
      let wantOk, val;
      if (verifiable && (s !== 'WarningWithFallback' || type === 4)) { wantOk = !fail; val = vals[0]; }
      else if (s === 'VerifiedOnly') { wantOk = type === 2 && unv; val = vals[1]; }
      else { wantOk = unv; val = vals[1]; }
      if (r.ok !== wantOk) violation(r.ok ? 'ts-strategy:answer-without-verification' : 'ts-strategy:fails-although-answerable', d);
      else if (r.ok && !eq(r.value, val)) violation(r.value === undefined ? 'ts-strategy:no-answer' : 'ts-strategy:other-answer', d);
      if (r.ok && s === 'WarningWithFallback' && type === 1) {
        const same = JSON.stringify(sorted(vals[0])) === JSON.stringify(sorted(vals[1]));
        if ((fail || !same) && !warned.length) violation('ts-strategy:no-warning', d);
        if (!fail && same && warned.length) violation('ts-strategy:warning-without-reason', d);
      } else if (s !== 'WarningWithFallback' && warned.length) violation('ts-strategy:warning-without-reason', d);
      faults('ts-strategy', d);
    }
}
function sorted(v) { return Array.isArray(v) ? v.map(sorted) : v && typeof v === 'object' ? Object.fromEntries(Object.keys(v).sort().map(k => [k, sorted(v[k])])) : v; }
function tryParse(s) { try { return JSON.parse(s); } catch { return "unreadable"; } }
mc.finish();
