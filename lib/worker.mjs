// node lib/worker.mjs  — reads {file, name, scale, jobs} requests (one JSON per line) on stdin, answers with one JSON line each
import { createInterface } from 'node:readline';
import { resolve } from 'node:path';
import { generate, discharge } from '../tsv/verify.mjs';
import { stopSync } from '../tsv/solver.mjs';
const mods = new Map();
async function load(file) {
  if (mods.has(file)) return mods.get(file);
  const mod = await import(resolve(file));
  const all = new Map();
  for (const c of mod.contracts) { c.file = resolve(file); all.set(c.name || c.target, c); if (!all.has(c.target)) all.set(c.target, c); }
  mods.set(file, all);
  return all;
}
async function job({ file, name, scale, jobs }) {
  const all = await load(file);
  const t0 = Date.now();
  const r = generate(all.get(name), all);
  const out = { name, target: r.target, error: r.error, genMs: Date.now() - t0, functions: [...r.functions], assumptions: [...r.assumptions], uses: [...r.callContracts], obligations: [] };
  if (!r.error) {
    try { await discharge(r.obligations.filter((o) => !o.trivial), { jobs, scale }); } catch (e) { out.error = `back end: ${e.message}`; }
    for (const o of r.obligations) out.obligations.push({ name: o.name, path: o.path, at: o.at || '', status: o.trivial ? 'proved' : o.result?.status ?? 'unknown', backend: o.trivial ? 'simplifier' : o.result?.backend ?? 'none', ms: Math.round(o.result?.ms || 0), cases: o.result?.cases || 0, output: o.trivial || o.result?.status === 'proved' ? undefined : String(o.result?.model || o.result?.reason || '').slice(0, 6000) });
  }
  out.totalMs = Date.now() - t0;
  return out;
}
const rl = createInterface({ input: process.stdin });
for await (const line of rl) {
  if (!line.trim()) continue;
  let out;
  try { out = await job(JSON.parse(line)); } catch (e) { out = { name: JSON.parse(line).name, error: String(e.stack || e).slice(0, 2000), functions: [], assumptions: [], uses: [], obligations: [] }; }
  process.stdout.write(JSON.stringify(out) + '\n');
}
stopSync();
process.exit(0);
