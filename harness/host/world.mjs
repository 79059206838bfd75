// Servers and the library a client talks to, all scripted.
import * as mc from './mc.mjs';
import { Lib } from './lib.mjs';
export const lib = new Lib();
globalThis.__lib = lib;
export const M = await import(mc.S.bundle);
const say = console.log; // the client's own messages are not part of the exploration
for (const k of ['log', 'warn', 'error', 'info', 'debug']) console[k] = () => {};
export { say };
export const net = { behave: null, calls: [] };
class Resp {
  constructor(status, body) { this.status = status; this.ok = status >= 200 && status < 300; this.b = Buffer.from(body); this.headers = new Map(); }
  async text() { return this.b.toString(); }
  async json() { return JSON.parse(this.b.toString()); }
  async arrayBuffer() { return this.b.buffer.slice(this.b.byteOffset, this.b.byteOffset + this.b.length); }
  async blob() { return { arrayBuffer: () => this.arrayBuffer(), size: this.b.length }; }
  async bytes() { return new Uint8Array(await this.arrayBuffer()); }
}
globalThis.fetch = async (url, o = {}) => {
  if (net.calls.length > 400) throw new Error('STUCK');
  const h = o.headers && typeof o.headers.get === 'function' ? Object.fromEntries(o.headers) : (o.headers || {});
  const call = { url: String(url), method: (o.method || 'GET').toUpperCase(), body: o.body, accept: h.Accept || h.accept };
  net.calls.push(call); mc.step();
  await null;
  const r = net.behave(call);
  if (r === undefined || r.reject) throw new TypeError('fetch failed');
  return new Resp(r.status ?? 200, r.body ?? '');
};
export const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b) && (a === undefined) === (b === undefined);
// runs one call of the client to its end; a call that never ends is reported by the bounded library and network
export async function run(p) {
  try { return { ok: true, value: await p() }; }
  catch (e) { return { ok: false, error: e, text: e && e.message !== undefined ? String(e.message) : String(e) }; }
}
const c4w = await M.wasm.getC4w();
export async function fresh(sc) {
  lib.reset(sc); net.calls = [];
  const mem = new Map();
  c4w.storage = { get: k => mem.get(k) ?? null, set: (k, v) => mem.set(k, v), del: k => mem.delete(k) };
  return mem;
}
