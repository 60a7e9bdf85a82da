// z3 back ends: a synchronous incremental-less session for path feasibility, and a parallel pool for obligations.
import { spawn, spawnSync } from 'node:child_process';
import { constants, openSync, writeSync, readSync, closeSync, mkdtempSync, rmSync, writeFileSync } from 'node:fs';
import { tmpdir } from 'node:os';
import { join } from 'node:path';
import { not, isF, isT, PRELUDE, ABS_PRELUDE, Printer, printQuery, printAbstract } from './terms.mjs';

import { sweep, splitOn } from './sweep.mjs';

export const stats = { feas: 0, feasMs: 0, obMs: 0, byBackend: {} };

const tick = new Int32Array(new SharedArrayBuffer(4));
class SyncZ3 {
  constructor() { this.n = 0; }
  start() {
    this.dir = mkdtempSync(join(tmpdir(), 'tsv-'));
    const i = join(this.dir, 'in'), o = join(this.dir, 'out');
    spawnSync('mkfifo', [i, o]);
    this.child = spawn('sh', ['-c', `exec z3-new -in -memory:4000 < ${i} > ${o} 2>&1`], { stdio: 'ignore' });
    this.child.unref();
    this.w = openSync(i, 'w');
    this.r = openSync(o, 'r');
    this.r2 = openSync(o, constants.O_RDONLY | constants.O_NONBLOCK);
    this.buf = '';
  }
  // asserts: terms; the session keeps a stack of asserted terms and shares the common prefix with the previous query
  check(asserts, rlimit, ms) {
    return this.query(`${this.context(asserts)}(set-option :rlimit ${rlimit})\n(set-option :timeout ${ms})\n(check-sat)`);
  }
  // which of conds (closed terms) do the asserts fix? -> array of true|false|undefined, or 'unsat'
  consequences(asserts, conds, ms) {
    let text = this.context(asserts);
    const [lines, cs] = this.printer.print(conds);
    text += lines.join('\n') + '\n(push)\n';
    const k = this.cn = (this.cn || 0) + 1;
    conds.forEach((c, i) => { text += `(declare-const p${k}_${i} Bool)\n(assert (= p${k}_${i} ${cs[i]}))\n`; });
    const facts = [...new Set(conds.flatMap((c) => this.printer.facts(c)))];
    text += facts.map((f) => `(assert ${f})\n`).join('');
    text += `(set-option :rlimit 20000000)\n(set-option :timeout ${ms})\n(get-consequences () (${conds.map((_, i) => `p${k}_${i}`).join(' ')}))\n(pop)`;
    const out = this.query(text);
    if (out.includes('(error')) throw new Error('z3 consequences error: ' + out.slice(0, 500));
    if (/^unsat/m.test(out)) return 'unsat';
    const res = conds.map(() => undefined);
    for (const m of out.matchAll(/\(=> true (\(not )?p\d+_(\d+)\)/g)) res[+m[2]] = !m[1];
    return res;
  }
  context(asserts) {
    if (!this.child || this.n > 6000) { this.stop(); this.start(); this.n = 0; this.stack = []; this.printer = new Printer(true); this.send(`(set-option :global-declarations true)\n(set-option :smt.random_seed 1)\n${ABS_PRELUDE}`); }
    let k = 0;
    while (k < this.stack.length && k < asserts.length && this.stack[k] === asserts[k]) k++;
    let text = '';
    if (k < this.stack.length) { text += `(pop ${this.stack.length - k})\n`; this.stack.length = k; }
    for (; k < asserts.length; k++) {
      const [lines, [a]] = this.printer.print([asserts[k]]);
      text += lines.join('\n') + `\n(push)\n(assert ${[a, ...this.printer.facts(asserts[k])].join(')\n(assert ')})\n`;
      this.stack.push(asserts[k]);
    }
    return text;
  }
  send(text) {
    const data = Buffer.from(text + '\n');
    let off = 0;
    while (off < data.length) off += writeSync(this.w, data, off);
  }
  query(text) {
    this.n++;
    const tag = `done${this.n}.`;
    this.send(`${text}\n(echo "${tag}")`);
    const chunk = Buffer.alloc(65536);
    const t0 = Date.now();
    let spins = 0;
    while (!this.buf.includes(tag)) {
      let k = -1;
      try { k = readSync(this.r2, chunk, 0, chunk.length, null); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
      if (k > 0) { this.buf += chunk.toString('utf8', 0, k); continue; }
      if (k === 0 || Date.now() - t0 > 6000) { this.stop(); return 'unknown'; }
      if (spins++ > 20) Atomics.wait(tick, 0, 0, spins > 200 ? 1 : 0.05);
    }
    const at = this.buf.indexOf(tag);
    const out = this.buf.slice(0, at);
    this.buf = this.buf.slice(at + tag.length).replace(/^\s+/, '');
    return out.trim();
  }
  stop() {
    if (this.child) {
      try { closeSync(this.w); closeSync(this.r); closeSync(this.r2); } catch { /* closed */ }
      try { this.child.kill('SIGKILL'); } catch { /* gone */ }
      rmSync(this.dir, { recursive: true, force: true });
      this.child = null;
      this.buf = '';
    }
  }
}
const sync = new SyncZ3();
export const stopSync = () => sync.stop();
process.on('exit', stopSync);

const cache = new Map();
const hasQ = new WeakMap();
const quantified = (t) => {
  if (hasQ.has(t)) return hasQ.get(t);
  const r = t.op === 'forall' || t.op === 'exists' || t.op === 'merge' || t.args.some(quantified);
  hasQ.set(t, r);
  return r;
};
function ask(asserts, rlimit, ms) {
  const t0 = Date.now();
  const out = sync.check(asserts, rlimit, ms);
  stats.feas++;
  stats.feasMs += Date.now() - t0;
  const last = out.split('\n').pop().trim();
  if (out.includes('(error')) throw new Error('z3 feasibility error: ' + out.slice(0, 500) + '\n' + printQuery(asserts).slice(0, 3000));
  return last === 'unsat' ? 'unsat' : last === 'sat' ? 'sat' : 'unknown';
}
// 'sat' | 'unsat' | 'unknown' ; asserts: terms. Used to prune paths only: 'unknown' counts as feasible.
export function feasible(asserts, rlimit = 300000, ms = 500, qms = 0) {
  const key = asserts.map((a) => a.id).sort((x, y) => x - y).join(',');
  const hit = cache.get(key);
  if (hit) return hit;
  if (process.env.TSV_FEAS) console.error("feas", asserts.length, asserts[asserts.length-1].op, new Error().stack.split("\n").slice(2,12).map(x=>x.trim().split(" ")[1]).join(" "));
  const qf = asserts.filter((a) => !quantified(a));
  let r = ask(qf, rlimit, ms);
  if (r !== "unsat" && qms && qf.length < asserts.length) r = ask(asserts, rlimit, qms);
  cache.set(key, r);
  return r;
}
export function consequences(asserts, conds, ms = 2000) {
  const t0 = Date.now();
  const r = sync.consequences(asserts, conds, ms);
  stats.cons = (stats.cons || 0) + 1;
  stats.consMs = (stats.consMs || 0) + Date.now() - t0;
  return r;
}
export function clearFeasCache() { cache.clear(); }

function run(cmd, args, input, timeoutMs) {
  return new Promise((res) => {
    const t0 = Date.now();
    const c = spawn(cmd, args, { stdio: ['pipe', 'pipe', 'pipe'] });
    let out = '', done = false;
    const fin = (r) => { if (!done) { done = true; clearTimeout(to); res({ out: r ?? out, ms: Date.now() - t0 }); } };
    const to = setTimeout(() => { c.kill('SIGKILL'); fin('timeout'); }, timeoutMs);
    c.stdout.on('data', (d) => (out += d));
    c.stderr.on('data', (d) => (out += d));
    c.on('error', () => fin('error'));
    c.on('close', () => fin());
    c.stdin.on('error', () => {});
    c.stdin.end(input);
  });
}
export function smtText(asserts) { return printQuery(asserts, PRELUDE); }

const QUICK = ['z3-5.3.2 (abstracted, case)', 'z3-new', ['-in', '-memory:3000', 'smt.random_seed=1'], 1.5, true];
const BACKENDS = [
  ['z3-5.3.2 (strings and sequences abstracted)', 'z3-new', ['-in', '-memory:3000', 'smt.random_seed=1'], 3, true],
  ['z3-5.3.2', 'z3-new', ['-in', '-memory:3000', 'smt.random_seed=1'], 6],
  ['z3-5.3.2 (mbqi off)', 'z3-new', ['-in', '-memory:3000', 'smt.mbqi=false', 'smt.random_seed=3'], 6],
  ['z3-5.3.2 (e-matching off)', 'z3-new', ['-in', '-memory:3000', 'smt.ematching=false', 'smt.random_seed=3'], 6],
  ['z3-4.8.12', 'z3', ['-in', '-memory:3000', 'smt.random_seed=1'], 10],
  ['z3-5.3.2 (long)', 'z3-new', ['-in', '-memory:3000', 'smt.random_seed=7', 'auto_config=false', 'smt.mbqi=true'], 30],
];
async function tryBackend(ob, asserts, [name, cmd, args, secs, abs], scale) {
  const text = abs ? printAbstract(asserts) : printQuery(asserts, PRELUDE);
  if (!abs) ob.smt = text;
  const r = await run(cmd, args, `${text}(check-sat)\n(get-info :reason-unknown)\n(get-model)\n`, secs * 1000 * scale);
  ob.ms = (ob.ms || 0) + r.ms;
  const first = r.out.trimStart().split('\n')[0].trim();
  if (first === 'unsat') return { status: 'proved', backend: name + (ob.swept ? ' after contextual simplification' : ''), ms: ob.ms };
  if (abs) { if (/\(error/.test(r.out) && first !== 'sat' && first !== 'unknown' && !/canceled|timeout/.test(r.out)) throw new Error('abstract back end: ' + r.out.slice(0, 300)); return null; }
  if (first === 'sat') return { status: 'refuted', backend: name, ms: ob.ms, model: r.out };
  ob.reason = r.out.slice(0, 400);
  return null;
}
async function pool(list, jobs, fn) {
  let next = 0;
  const worker = async () => { while (next < list.length) { const ob = list[next++]; await fn(ob); } };
  await Promise.all(Array.from({ length: Math.min(jobs, list.length) }, worker));
}
// each obligation: {name, asserts, pc, goal, lemmas} -> result {status: 'proved'|'refuted'|'unknown', backend, ms, model}
export async function discharge(obs, { jobs = 6, scale = 1 } = {}) {
  const t0 = Date.now();
  const open = () => obs.filter((o) => !o.result);
  await pool(open(), jobs, async (ob) => { const r = await tryBackend(ob, ob.asserts, BACKENDS[0], scale); if (r) ob.result = r; });
  await pool(open(), jobs, async (ob) => { for (const [b, cmd, args] of [BACKENDS[1], BACKENDS[2], BACKENDS[3]]) { const r = await tryBackend(ob, ob.asserts, [b + ' (short)', cmd, args, 1.5], scale); if (r?.status === 'proved') { ob.result = r; break; } } });
  // case analysis: simplify under the path condition; when the short back ends do not settle a case, split it on a condition
  const queue = [];
  for (const ob of open()) {
    if (!ob.pc) { ob.leafs = [{ ob, asserts: ob.asserts }]; continue; }
    ob.pending = 1; ob.nodes = 0; ob.leafs = [];
    queue.push({ ob, pc: ob.pc, goal: ob.goal, depth: 0 });
  }
  const maxNodes = 120 * Math.max(1, scale);
  const node = async (q) => {
    const { ob } = q;
    if (ob.failed) return;
    ob.nodes++;
    const t1 = Date.now();
    const r = sweep(q.pc, q.goal);
    ob.sweepMs = (ob.sweepMs || 0) + Date.now() - t1;
    ob.swept = true;
    if (isT(r.goal) || r.pc.some(isF)) return;
    const base = [...r.pc, not(r.goal)];
    const asserts = [...base, ...ob.lemmas(base)];
    const res = await tryBackend(ob, asserts, QUICK, scale);
    if (res) return;
    const c = q.depth < 14 && ob.nodes < maxNodes ? splitOn(r.pc, r.goal, q.done || new Set()) : null;
    if (!c) { ob.leafs.push({ ob, asserts }); if (ob.leafs.length > 3) ob.failed = true; return; }
    const done = new Set(q.done || []).add(c.id);
    queue.push({ ob, pc: [...r.pc, c], goal: r.goal, depth: q.depth + 1, done }, { ob, pc: [...r.pc, not(c)], goal: r.goal, depth: q.depth + 1, done });
  };
  let active = 0;
  await new Promise((res, rej) => {
    const step = () => {
      if (!active && !queue.length) return res();
      while (active < jobs && queue.length) { active++; node(queue.shift()).then(() => { active--; step(); }, rej); }
    };
    step();
  });
  let lost = 0; // once several obligations have failed the verdict is clear
  await pool(open(), jobs, async (ob) => {
    if (lost >= 3) { ob.result = { status: 'not attempted', backend: 'none', ms: ob.ms }; return; }
    for (const leaf of ob.leafs) {
      let ok = null;
      for (const b of BACKENDS) { ok = await tryBackend(ob, leaf.asserts, b, scale); if (ok) break; }
      if (!ok || ok.status !== 'proved') { ob.result = ok || { status: 'unknown', backend: 'none', ms: ob.ms, reason: ob.reason }; lost++; return; }
    }
    ob.result = { status: 'proved', backend: 'z3-5.3.2 after contextual simplification and case analysis', ms: ob.ms, cases: ob.nodes };
  });
  for (const ob of obs) { stats.byBackend[ob.result.backend] = (stats.byBackend[ob.result.backend] || 0) + 1; stats.solverMs = (stats.solverMs || 0) + (ob.result.ms || 0); }
  stats.obMs += Date.now() - t0;
  return obs;
}
