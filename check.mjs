// node check.mjs <property> : proves the contracts of the property on /repo's current source, and runs the same
// statements as oracles on the real code (replay). Exit 0: held. Exit 1 + VIOLATION line: broken.
import { writeFileSync, mkdirSync, existsSync, readFileSync } from 'node:fs';
import { join, dirname } from 'node:path';
import { fileURLToPath } from 'node:url';
import { contractsOf, prove, failed, killWorkers } from './lib/prove.mjs';
import { cleanup, REPO } from './lib/bundle.mjs';
import { makeRng } from './lib/rng.mjs';

const ROOT = dirname(fileURLToPath(import.meta.url));
process.chdir(ROOT);
const id = process.argv[2];
const tier = process.env.VERIF_TIER === 'thorough' || process.argv[3] === 'thorough' ? 'thorough' : 'quick';
const seed = Number(process.env.VERIF_SEED || 1) | 0;
const t0 = Date.now();
for (const sig of ['SIGTERM', 'SIGINT', 'SIGHUP']) process.on(sig, () => { killWorkers(); cleanup(); process.exit(1); });
process.on('exit', () => { killWorkers(); cleanup(); });
// the code under test may leave unhandled rejections and logs behind; they are not the check's output
process.on('unhandledRejection', () => {});
const say = (s) => process.stdout.write(s + '\n');
const replayMods = ['core', 'connector', 'browser', 'tag'];
const files = { E: 'core', B: 'browser', C: 'connector', T: 'tag' };
const known = JSON.parse(readFileSync(join(ROOT, 'known-findings.json'), 'utf8')).findings.filter((f) => f.property === id);

// ---- replay: executes the property's oracle on the real code
async function replay(ms, salt) {
  const file = join(ROOT, 'replay', `${files[id[0]]}.mjs`);
  const res = { runs: 0, failures: new Map(), samples: [], note: null, distinct: new Set() };
  if (!existsSync(file)) { res.note = 'no replay'; return res; }
  const log = {};
  for (const k of ['log', 'warn', 'error', 'info', 'debug']) { log[k] = console[k]; console[k] = () => {}; }
  try {
    const mod = await import(file);
    const r = mod.replays[id];
    if (!r) { res.note = 'no replay'; return res; }
    const end = Date.now() + ms;
    const ctx = {
      rng: makeRng(seed * 7919 + salt), more: () => Date.now() < end && res.failures.size < 4, tier,
      count(sample) { res.runs++; const s = JSON.stringify(sample); if (s && res.distinct.size < 200000) res.distinct.add(s.length > 300 ? hash(s) : s); if (res.samples.length < 2 && s) res.samples.push(JSON.parse(s.length > 1500 ? JSON.stringify(s.slice(0, 1500)) : s)); },
      fail(key, message, input) { if (!res.failures.has(key)) res.failures.set(key, { key, message, input }); },
    };
    await r(ctx);
  } catch (e) { res.note = `replay could not run: ${String(e && e.stack || e).slice(0, 1500)}`; } finally { Object.assign(console, log); }
  return res;
}
function hash(s) { let h = 0; for (let i = 0; i < s.length; i++) h = (Math.imul(h, 31) + s.charCodeAt(i)) | 0; return `${s.length}:${h}`; }

const { list, abstract } = await contractsOf(id);
const quickMs = Number(process.env.VERIF_REPLAY_MS || (tier === 'thorough' ? 60000 : 4000));
const first = await replay(quickMs, 0);
let proofs = list.length ? await prove(list, { scale: tier === 'thorough' ? 3 : 1, budgetMs: tier === 'thorough' ? 600000 : 300000 }) : [];
const isKnown = (key) => known.some((k) => k.key === key);
const newFails = (r) => [...r.failures.values()].filter((f) => !isKnown(f.key));
let second = null;
if (proofs.some(failed) && !newFails(first).length) {
  // give what did not go through a second, longer attempt with little running beside it
  const again = list.filter((c, i) => failed(proofs[i]) && !/^(precondition is|no feasible)/.test(proofs[i].error || ''));
  const r2 = await prove(again.filter((c) => !proofs[list.indexOf(c)].error || /time budget|process ended/.test(proofs[list.indexOf(c)].error)), { scale: 4, width: 2, jobs: 4, budgetMs: 240000 });
  again.filter((c) => !proofs[list.indexOf(c)].error || /time budget|process ended/.test(proofs[list.indexOf(c)].error)).forEach((c, i) => { proofs[list.indexOf(c)] = r2[i]; });
}
const brokenObs = proofs.flatMap((p, i) => (p.error ? [{ contract: p.name, target: p.target ?? list[i].target, obligation: 'contract established', status: 'error', output: p.error }] : p.obligations.filter((o) => o.status !== 'proved').map((o) => ({ contract: p.name, target: p.target, obligation: o.name, at: o.at, path: o.path, status: o.status, backend: o.backend, output: o.output }))))
  .filter((o) => !isKnown(`${o.contract}/${o.obligation}`));
if (brokenObs.length && !newFails(first).length) second = await replay(Number(process.env.VERIF_REPLAY_MS || 40000), 1);
const fails = [...newFails(first), ...(second ? newFails(second) : [])];
const seenKnown = new Set([...first.failures.keys(), ...(second ? second.failures.keys() : []), ...proofs.flatMap((p) => p.obligations.filter((o) => o.status !== 'proved').map((o) => `${p.name}/${o.name}`))].filter(isKnown));

// ---- evidence
const obs = proofs.flatMap((p) => p.obligations);
const backends = {};
for (const o of obs) if (o.status === 'proved') backends[o.backend] = (backends[o.backend] || 0) + 1;
const { META } = await import('./lib/meta.mjs');
const meta = META[id] || {};
const evidence = {
  property: id, tier, seed, level: meta.level || 'proof',
  coverage: {
    obligations: obs.length + proofs.filter((p) => p.error).length, discharged: obs.filter((o) => o.status === 'proved').length,
    checker_cmd: `node check.mjs ${id}`,
    trusted_base: ['tsv/ (this framework\'s obligation generator: symbolic execution of the TypeScript source)', 'TypeScript 5.9.3 parser', 'Z3 5.3.2 and Z3 4.8.12', 'Node 22 (replay)'],
    functions_under_contract: [...new Set(list.map((c) => c.target))], functions_executed: [...new Set(proofs.flatMap((p) => p.functions))].sort(),
    contracts: proofs.map((p) => ({ name: p.name, target: p.target, obligations: p.obligations.length, discharged: p.obligations.filter((o) => o.status === 'proved').length, ms: p.totalMs, error: p.error || undefined })),
    back_ends: backends, solver_ms: Math.round(obs.reduce((s, o) => s + o.ms, 0)), case_splits: obs.reduce((s, o) => s + o.cases, 0),
    abstract_contracts: abstract.map((a) => `${a.name} (${a.target}): left uninterpreted${a.why ? ' - ' + a.why : ''}`),
    bounded: meta.bounded || [],
    replay: { evaluations: first.runs + (second ? second.runs : 0), distinct_nontrivial: first.distinct.size + (second ? second.distinct.size : 0), rule: 'the statement of the property, executed as an oracle on the real code with generated inputs; distinct inputs counted', samples: first.samples, note: first.note || undefined },
  },
  assumptions: [...new Set([...(meta.assumptions || []), ...proofs.flatMap((p) => p.assumptions)])],
  wall_s: (Date.now() - t0) / 1000,
  violations: fails.length + (fails.length ? 0 : brokenObs.length),
};
mkdirSync(join(ROOT, 'evidence'), { recursive: true });
writeFileSync(join(ROOT, 'evidence', `${id}.json`), JSON.stringify(evidence, null, 1));
for (const k of known) if (seenKnown.has(k.key)) say(`KNOWN-FINDING: property=${id} ${k.what}`);
say(`${id} ${tier}: ${evidence.coverage.discharged}/${evidence.coverage.obligations} obligations of ${list.length} contracts discharged; replay ${evidence.coverage.replay.evaluations} runs${first.note ? ` (${first.note})` : ''}; ${evidence.wall_s.toFixed(1)} s`);
if (!list.length && first.note) { say(`${id}: nothing was checked`); process.exit(2); }
if (fails.length || brokenObs.length) {
  mkdirSync(join(ROOT, 'replays'), { recursive: true });
  const path = join(ROOT, 'replays', `${id}.json`);
  writeFileSync(path, JSON.stringify({ property: id, seed, repo: REPO, failing_inputs: fails, failed_obligations: brokenObs }, null, 1));
  for (const o of brokenObs.slice(0, 8)) say(`  failed obligation: ${o.contract} (${o.target}): ${o.obligation}${o.at ? ` at ${o.at}` : ''} [${o.status}]${o.status === 'error' ? ' ' + o.output.slice(0, 300) : ''}`);
  for (const f of fails.slice(0, 4)) say(`  failing input: ${f.key}: ${f.message}`);
  say(`VIOLATION property=${id} replay=${path}${fails.length ? '' : ' no-failing-input-found'}`);
  process.exit(1);
}
process.exit(0);
