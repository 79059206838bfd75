// The explorers' scaffolding (harness/mc.hpp) for the TypeScript client: case numbering, sharding, replay, counters.
import fs from 'node:fs';
export const S = { shard: 0, n: 1, thorough: false, onlySection: '', onlyCase: -1, prefix: '', section: '', out: '', cases: 0, steps: 0, bundle: '' };
const per = new Map(), outcomes = new Set(), vcount = new Map(), samples = [];
let cur = 'init', idx = -1, posfd = null, nviol = 0;
for (let a = process.argv.slice(2), i = 0; i < a.length; i++) {
  const v = () => a[++i];
  if (a[i] === '--shard') { const [s, n] = v().split('/'); S.shard = +s; S.n = +n; }
  else if (a[i] === '--thorough') S.thorough = true;
  else if (a[i] === '--only') { const s = v(), p = s.lastIndexOf(':'); S.onlySection = s.slice(0, p); S.onlyCase = +s.slice(p + 1); }
  else if (a[i] === '--prefix') S.prefix = v();
  else if (a[i] === '--section') S.section = v();
  else if (a[i] === '--out') S.out = v();
  else if (a[i] === '--bundle') S.bundle = v();
}
if (S.out) { posfd = fs.openSync(S.out + '.pos', 'w+'); fs.writeSync(posfd, Buffer.alloc(4096)); }
export function section(name) {
  if (!name.startsWith(S.prefix) || (S.section && S.section !== name) || (S.onlySection && S.onlySection !== name)) return false;
  cur = name; if (!per.has(name)) per.set(name, [0, 0]); idx = per.get(name)[1] - 1; return true;
}
export function next() {
  const i = ++idx; per.get(cur)[1]++;
  if (S.onlyCase >= 0) { if (i !== S.onlyCase) return false; } else if (i % S.n !== S.shard) return false;
  S.cases++; per.get(cur)[0]++;
  if (posfd !== null && (S.cases % 16 === 1 || S.onlyCase >= 0)) { const b = Buffer.alloc(264); b.write(cur, 0, 200); b.writeBigInt64LE(BigInt(i), 256); fs.writeSync(posfd, b, 0, 264, 0); }
  return true;
}
export const step = (n = 1) => { S.steps += n; };
export function outcome(s) {
  if (typeof s !== 'string') s = JSON.stringify(s);
  let h = 1469598103934665603n;
  for (let i = 0; i < s.length; i++) { h ^= BigInt(s.charCodeAt(i)); h = (h * 1099511628211n) & 0xffffffffffffffffn; }
  outcomes.add(h);
}
export const sample = s => { if (samples.length < 4 && S.shard === 0) samples.push(String(s).slice(0, 600)); };
const out = s => fs.writeSync(1, s + '\n');
export function violation(sig, detail) {
  nviol++; const c = vcount.get(sig) || 0; vcount.set(sig, c + 1);
  if (c < +(process.env.MC_VCAP || 2) && vcount.size < 60) out(`V\t${sig}\t${cur}:${idx}\t${String(detail).replace(/[\t\n]/g, ' ').slice(0, 3000)}`);
}
export function finish() {
  if (S.out) { const b = Buffer.alloc(outcomes.size * 8); let i = 0; for (const h of outcomes) { b.writeBigUInt64LE(h, i); i += 8; } fs.writeFileSync(S.out + '.hash', b); }
  out('STATS\t' + JSON.stringify({ cases: S.cases, steps: S.steps, violations: nviol, capped: false, sections: Object.fromEntries(per), samples }));
  process.exit(0);
}
process.on('uncaughtException', e => { violation('uncaught-exception', e && e.stack); finish(); });
process.on('unhandledRejection', e => { violation('unhandled-rejection', e && e.stack); });
export function* product(...lists) {
  const i = lists.map(() => 0);
  if (lists.some(l => !l.length)) return;
  for (;;) {
    yield i.map((k, j) => lists[j][k]);
    let j = lists.length - 1;
    while (j >= 0 && ++i[j] === lists[j].length) i[j--] = 0;
    if (j < 0) return;
  }
}
