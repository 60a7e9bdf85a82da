// node tsv/run.mjs contracts/x.mjs [filter]  — developer runner
import { generate, discharge, smtText } from './verify.mjs';
import { stopSync, stats } from './solver.mjs';
import { writeFileSync } from 'node:fs';
import { resolve } from 'node:path';
const [file, filter, dump] = process.argv.slice(2);
const mod = await import(resolve(file));
const all = new Map();
for (const c of mod.contracts) { c.file = resolve(file); all.set(c.name || c.target, c); all.set(c.target, c); }
for (const c of mod.contracts) {
  if (c.abstraction) continue;
  if (filter && !(c.name || c.target).includes(filter)) continue;
  const t0 = Date.now();
  const r = generate(c, all, { debug: !!process.env.DEBUG });
  const tg = Date.now() - t0;
  if (r.error) { console.log(`ERR  ${r.name}: ${r.error}`); if (process.env.DEBUG) console.log(r.stack); continue; }
  await discharge(r.obligations.filter((o) => !o.trivial), { jobs: 8, scale: +(process.env.SCALE||1) });
  if (process.env.DEBUG) for (const o of r.obligations) if (o.trivial) console.log('   trivial', o.name, o.goal.op, o.pc.some((t) => t.op === 'false'));
  const bad = r.obligations.filter((o) => !o.trivial && o.result.status !== 'proved');
  console.log(JSON.stringify(stats));console.log(`${bad.length ? 'FAIL' : 'ok  '} ${r.name}: ${r.obligations.length} obligations, ${r.paths} paths, gen ${tg} ms, total ${Date.now() - t0} ms`);
  if (process.env.LIST) for (const o of r.obligations) console.log(`     . ${o.name} ${o.at} ${o.trivial ? 'trivial' : o.result.status + ' ' + o.result.ms + 'ms ' + o.result.by} goal ${smtText ? '' : ''}${o.goal.op}`);
  for (const o of bad) { console.log(`     - ${o.name} [path ${o.path}] ${o.at} : ${o.result.status} ${o.result.ms}ms`); if (dump && o.result.model && !globalThis.dumped) { globalThis.dumped = true; writeFileSync('/tmp/ob.smt2', o.smt + '(check-sat)(get-model)'); writeFileSync('/tmp/model.txt', o.result.model || o.result.reason || ''); } }
}
stopSync();
process.exit(0);
