// The scripted library behind the client: it asks for data in rounds, checks each answer, excludes the node of a bad one
// (RETRY_REQUEST in src/util/state.h), and ends with success or error. Every handle and byte is accounted for.
export class Lib {
  constructor() { this.reset({}); }
  reset(sc) {
    this.sc = sc; this.heap = this.heap || new Uint8Array(1 << 20); this.top = 16; this.live = new Map(); this.faults = [];
    this.ctxs = new Map(); this.reqs = new Map(); this.nctx = 1000; this.nreq = 5000; this.log = []; this.checkpoints = [];
  }
  fault(s) { this.faults.push(s); }
  malloc(n) { const p = this.top; this.top += ((n + 31) & ~15); if (this.top > this.heap.length) throw new Error('stub heap exhausted'); this.live.set(p, n); this.heap.fill(0xAA, p, p + n + 8); return p; }
  free(p) { if (!p) return; if (!this.live.has(p)) this.fault('free-of-unowned-pointer'); else this.live.delete(p); }
  str(p) { if (!p) return null; let e = p; while (this.heap[e] && e < this.heap.length) e++; for (const [b, n] of this.live) if (p >= b && p < b + n && e >= b + n) this.fault('unterminated-string'); return Buffer.from(this.heap.subarray(p, e)).toString('utf8'); }
  put(s) { const b = Buffer.from(s, 'utf8'); const p = this.malloc(b.length + 1); this.heap.set(b, p); this.heap[p + b.length] = 0; return p; }
  newCtx(kind, prog, info) { const id = this.nctx++; this.ctxs.set(id, { kind, prog, round: 0, open: null, freed: false, info, done: false, execs: 0 }); this.log.push([kind + '-create', info]); return id; }
  exec(id, kind) {
    const c = this.ctxs.get(id);
    if (!c || c.freed || c.kind !== kind) { this.fault('use-of-dead-context'); return this.put('{"status":"error","error":"dead"}'); }
    if (++c.execs > 60) throw new Error('STUCK');
    const rounds = c.prog.rounds || [];
    while (c.round < rounds.length) {
      if (!c.open) c.open = rounds[c.round].map(r => { const q = { spec: r, ptr: this.nreq++, mask: r.mask || 0, response: null, error: null, node: 0 }; this.reqs.set(q.ptr, q); return q; });
      for (const q of c.open) {
        if (q.error !== null) return this.put(JSON.stringify({ status: 'error', error: q.error }));
        if (q.response && q.spec.bad && q.spec.bad(q.response)) { if (q.node < 16) q.mask |= 1 << q.node; q.response = null; }
      }
      const pend = c.open.filter(q => !q.response);
      if (pend.length) return this.put(JSON.stringify({ status: c.prog.waiting || 'waiting', requests: pend.map(q => ({ req_ptr: q.ptr, chain_id: 1, encoding: q.spec.encoding, exclude_mask: String(q.mask), method: q.spec.method, url: q.spec.url, ...(q.spec.payload ? { payload: q.spec.payload } : {}), type: q.spec.type })) }));
      c.round++; c.open = null;
    }
    c.done = true;
    if (c.prog.final === 'error') return this.put(JSON.stringify({ status: 'error', error: c.prog.error }));
    if (kind === 'proof') { const p = c.prog.proof, ptr = this.malloc(p.length + 1); this.heap.set(p, ptr); c.proofPtr = ptr; return this.put(JSON.stringify({ status: 'success', result: ptr, result_len: p.length })); }
    return this.put(JSON.stringify({ status: 'success', result: c.prog.result }));
  }
  module() {
    const L = this;
    return {
      HEAPU8: L.heap, _malloc: n => L.malloc(n), _free: p => L.free(p),
      lengthBytesUTF8: s => Buffer.byteLength(s, 'utf8'),
      stringToUTF8: (s, p, max) => { if (!(max > 0)) return 0; let n = 0; for (const ch of s) { const b = Buffer.from(ch, 'utf8'); if (n + b.length >= max) break; L.heap.set(b, p + n); n += b.length; } L.heap[p + n] = 0; for (const [b, sz] of L.live) if (p >= b && p < b + sz && p + n >= b + sz) L.fault('write-beyond-buffer'); return n; },
      UTF8ToString: p => L.str(p) ?? '',
      storage: null, _init_storage: () => {},
      _c4w_get_method_type: (chain, m) => { L.log.push(['type', String(chain), L.str(m)]); return L.sc.types?.[L.str(m)] ?? L.sc.type ?? 0; },
      _c4w_create_proof_ctx: (m, a, chain, flags) => L.newCtx('proof', L.sc.prove, { method: L.str(m), args: L.str(a), chain: String(chain), flags }),
      _c4w_free_proof_ctx: id => { const c = L.ctxs.get(id); if (!c || c.freed) L.fault('double-free-of-context'); else { c.freed = true; if (c.proofPtr) L.live.delete(c.proofPtr); } },
      _c4w_execute_proof_ctx: id => L.exec(id, 'proof'),
      _c4w_create_verify_ctx: (p, n, m, a, chain, cp, keys) => {
        if (cp) { L.checkpoints.push([String(chain), L.str(cp)]); }
        if (!m || !L.str(m)) return 0;
        const info = { proof: Buffer.from(L.heap.subarray(p, p + n)).toString('latin1'), method: L.str(m), args: L.str(a), chain: String(chain), cp: L.str(cp), keys: L.str(keys) };
        return L.newCtx('verify', L.sc.verify(info), info);
      },
      _c4w_free_verify_ctx: id => { const c = L.ctxs.get(id); if (!c || c.freed) L.fault('double-free-of-context'); else c.freed = true; },
      _c4w_verify_proof: id => L.exec(id, 'verify'),
      _c4w_req_set_response: (ptr, data, len, node) => {
        const q = L.reqs.get(ptr); if (!q) return L.fault('answer-to-unknown-request');
        if (q.response || q.error !== null) L.fault('request-answered-twice');
        if (!L.live.has(data)) L.fault('response-not-owned'); else L.live.delete(data); // the library owns it now
        q.response = Buffer.from(L.heap.subarray(data, data + len)); q.node = node;
        if (L.heap[data + len] !== 0) L.fault('response-not-terminated');
      },
      _c4w_req_set_error: (ptr, e, node) => { const q = L.reqs.get(ptr); if (!q) return L.fault('answer-to-unknown-request'); if (q.response || q.error !== null) L.fault('request-answered-twice'); q.error = L.str(e); q.node = node; },
      _c4w_req_free: () => {}, _c4w_get_pending_data_request: () => 0,
    };
  }
  ended() { // after a call: everything released
    const f = [...this.faults];
    for (const [, c] of this.ctxs) if (!c.freed) f.push('context-not-freed:' + c.kind);
    if (this.live.size) f.push('memory-not-freed');
    return f;
  }
}
