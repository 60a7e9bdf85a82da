// Contextual simplification of an obligation. Every closed, quantifier-free condition occurring in it that the path
// condition decides (z3, strings and sequences abstracted) is replaced by its value, and applications of the same
// uninterpreted symbol whose arguments the path condition makes equal are identified. The path condition itself is kept.
import * as T from './terms.mjs';
import { consequences } from './solver.mjs';

const isQ = (t, memo) => {
  if (memo.has(t.id)) return memo.get(t.id);
  const r = t.op === 'forall' || t.op === 'exists' || t.op === 'merge' || t.args.some((a) => isQ(a, memo));
  memo.set(t.id, r);
  return r;
};
const TRUE = T.TRUE(), FALSE = T.FALSE();
export function sweep(pc, goal) {
  const qm = new Map();
  const qf = pc.filter((t) => !isQ(t, qm));
  let roots = [goal, ...pc.filter((t) => isQ(t, qm))];
  const known = new Set();
  for (let round = 0; round < 5; round++) {
    const conds = [], ufs = new Map();
    const seen = new Set();
    const visit = (t) => {
      if (seen.has(t.id)) return;
      seen.add(t.id);
      t.args.forEach(visit);
      if (T.hasBvar(t) || isQ(t, qm) || !t.args.length) return;
      if (t.sort === 'Bool' && !['and', 'or', 'not'].includes(t.op)) { if (!known.has(t.id)) conds.push({ t }); }
      else if (t.op === 'uf') {
        if (!ufs.has(t.extra)) ufs.set(t.extra, []);
        const list = ufs.get(t.extra);
        for (const y of list.slice(0, 10)) {
          const d = t.args.map((x, i) => [x, y.args[i]]).filter(([x, z]) => x !== z);
          if (d.some(([x, z]) => T.hasBvar(x) || T.hasBvar(z) || isQ(x, qm) || isQ(z, qm))) continue;
          const e = T.and(d.map(([x, z]) => T.eq(x, z)));
          if (T.isF(e) || known.has(e.id)) continue;
          conds.push({ t: e, merge: [t, y] });
        }
        list.push(t);
      }
    };
    roots.forEach(visit);
    if (!conds.length) break;
    const res = consequences(qf, conds.map((c) => c.t));
    if (res === 'unsat') return { goal: TRUE, pc: qf };
    const m = new Map();
    conds.forEach((c, i) => {
      if (res[i] === undefined) return;
      if (c.merge) { if (res[i]) { let to = c.merge[1]; while (m.has(to.id)) to = m.get(to.id); if (to !== c.merge[0] && !m.has(c.merge[0].id)) m.set(c.merge[0].id, to); } else known.add(c.t.id); }
      else m.set(c.t.id, res[i] ? TRUE : FALSE);
    });
    if (!m.size) break;
    const memo = new Map();
    const next = roots.map((t) => T.subst(t, m, memo));
    if (next.every((t, i) => t === roots[i])) break;
    roots = next;
  }
  return { goal: roots[0], pc: [...qf, ...roots.slice(1)] };
}

// a closed quantifier-free condition to split a case on: a disjunct of a path condition that was joined, else the
// lowest ite condition of the goal or of the quantified hypotheses
export function splitOn(pc, goal, done) {
  const qm = new Map();
  const usable = (t) => !done.has(t.id) && t !== TRUE && t !== FALSE && !T.hasBvar(t) && !isQ(t, qm);
  for (const t of pc) if (t.op === 'or') for (const x of t.args) { const y = x.op === 'not' ? x.args[0] : x; if (usable(y)) return y; }
  let best = null;
  const seen = new Set();
  const visit = (t) => {
    if (seen.has(t.id)) return;
    seen.add(t.id);
    t.args.forEach(visit);
    if (t.op === 'ite' && usable(t.args[0]) && (!best || t.args[0].id < best.id)) best = t.args[0];
  };
  visit(goal);
  if (!best) for (const t of pc) if (isQ(t, qm)) visit(t);
  if (best) return best;
  // atoms of the goal
  const atoms = (t) => { if (seen.has('a' + t.id)) return; seen.add('a' + t.id); if (['and', 'or', 'not', '=>'].includes(t.op) || (t.op === '=' && t.args[0].sort === 'Bool')) t.args.forEach(atoms); else if (t.sort === 'Bool' && usable(t) && (!best || t.id < best.id)) best = t; };
  atoms(goal);
  return best;
}
