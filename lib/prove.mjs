// runs the contracts of one property through the verifier, in worker processes
import { spawn } from 'node:child_process';
import { createInterface } from 'node:readline';
import { readdirSync } from 'node:fs';
import { join, dirname } from 'node:path';
import { fileURLToPath } from 'node:url';
const ROOT = join(dirname(fileURLToPath(import.meta.url)), '..');

export async function contractsOf(id) {
  const out = [], abstract = [];
  for (const f of readdirSync(join(ROOT, 'contracts')).filter((x) => x.endsWith('.mjs')).sort()) {
    const mod = await import(join(ROOT, 'contracts', f));
    if (!mod.contracts) continue;
    const by = new Map(mod.contracts.map((c) => [c.name || c.target, c]));
    const seen = new Set();
    const add = (c) => {
      const n = c.name || c.target;
      if (seen.has(n)) return;
      seen.add(n);
      if (c.abstraction) abstract.push({ file: join('contracts', f), name: n, target: c.target, why: c.why });
      else out.push({ file: join('contracts', f), name: n, target: c.target, direct: (c.props || []).includes(id) });
      for (const u of c.uses || []) { const cc = typeof u === 'string' ? by.get(u) : u; if (!cc) throw new Error(`${n} uses unknown contract ${u}`); add(cc); }
    };
    for (const c of mod.contracts) if ((c.props || []).includes(id)) add(c);
  }
  return { list: out, abstract };
}
const workers = new Set();
export function killWorkers() { for (const w of workers) { try { process.kill(-w.pid, 'SIGKILL'); } catch { /* gone */ } } workers.clear(); }
// budgetMs: contracts not answered by then count as unknown
export async function prove(list, { scale = 1, width = 4, jobs = 2, budgetMs = 300000 } = {}) {
  const results = new Map();
  const queue = list.slice();
  const end = Date.now() + budgetMs;
  const unknown = (c, why) => ({ name: c.name, target: c.target, error: why, functions: [], assumptions: [], uses: [], obligations: [] });
  await Promise.all(Array.from({ length: Math.min(width, list.length) }, async () => {
    let w = null, lines = null;
    const start = () => {
      w = spawn(process.execPath, ['--stack-size=4000', '--max-old-space-size=3000', join(ROOT, 'lib/worker.mjs')], { cwd: ROOT, stdio: ['pipe', 'pipe', 'inherit'], detached: true });
      w.stdin.on('error', () => {});
      workers.add(w);
      lines = createInterface({ input: w.stdout })[Symbol.asyncIterator]();
    };
    const stop = () => { if (w) { try { process.kill(-w.pid, 'SIGKILL'); } catch { /* gone */ } workers.delete(w); w = null; } };
    while (queue.length) {
      const c = queue.shift();
      const left = end - Date.now();
      if (left < 1000) { results.set(c, unknown(c, 'time budget of the check used up')); continue; }
      if (!w) start();
      w.stdin.write(JSON.stringify({ file: c.file, name: c.name, scale, jobs }) + '\n');
      let timer;
      const r = await Promise.race([lines.next(), new Promise((res) => { timer = setTimeout(() => res('timeout'), left); })]);
      clearTimeout(timer);
      if (r === 'timeout') { results.set(c, unknown(c, 'time budget of the check used up')); stop(); } else if (r.done) { results.set(c, unknown(c, 'verifier process ended')); stop(); } else results.set(c, JSON.parse(r.value));
    }
    stop();
  }));
  return list.map((c) => results.get(c));
}
export const failed = (r) => !!r.error || r.obligations.length === 0 || r.obligations.some((o) => o.status !== 'proved');
