// Automatic exact summaries of loops that carry state: appends become FLAT terms, the rest become FOLD terms.
// A FLAT/FOLD term is an uninterpreted function of (initial state, free values) identified by its step function;
// two of them are equal when their step functions agree (lemma instances are added per obligation).
import * as T from './terms.mjs';
import { Exec, Unsupported, State, U, N, B, I, R, S, VAL, ARR, OBJ, REF, W, norm } from './exec.mjs';

const termOf = (ex, st, m, v) => {
  if (m.kind === 'chunk') {
    switch (v.kind) {
      case 'arr': return v.els ? T.concat(v.els.map((x) => T.unit(ex.toVal(st, x)))) : v.t;
      case 'obj': { let d = v.dict; for (const [k, x] of v.over) d = T.store(d, T.str(k), x === null ? T.V.Absent() : ex.toVal(st, x)); return d; }
      case 'map': return v.t;
      case 'bytes': return v.t;
    }
    return null;
  }
  switch (v.k) {
    case 'bool': case 'int': case 'str': case 'i32': return v.t;
    case 'num': return v.t;
    case 'arr': case 'obj': return v.t;
    default: return ex.toVal(st, v);
  }
};
const hvTermHas = (hv, c) => { for (const t of hv.values()) if (t === c) return true; return false; };
export const P = {
  autoStateLoop(s, n, mods, run, elemAt, body, node, S_) {
    const { j, mark } = run;
    const conts = run.outs.filter((o) => o.c === 'norm'), exits = run.outs.filter((o) => o.c !== 'norm');
    if (exits.some((o) => o.label)) return null;
    const list = [...mods.values()].sort((a, b) => this.modOrder(s, a) - this.modOrder(s, b));
    for (const o of exits) for (const m of this.modified(run.s0, o.s)) if (!mods.has(this.modKey(m))) return null;
    for (const m of list) if (m.refs) return null;
    const sk = this.skolemMap(run, run.outs, j, mark);
    // havoc constants carry stamps too: keep them
    const hvTerm = new Map();
    for (const m of list) {
      const h = run.hv.get(this.modKey(m));
      const t = m.kind === 'chunk' ? (h.kind === 'obj' ? h.dict : h.t) : h.t;
      if (!t || t.op !== 'const') return null;
      if (m.kind === 'chunk' && h.kind === 'set') return null;
      hvTerm.set(m, t);
    }
    for (const t of hvTerm.values()) sk.delete(t.id);
    const hvSet = new Set(hvTerm.values());
    const mentions = (t) => { for (const c of T.constsOf(t)) if (hvSet.has(c)) return true; return false; };
    const sub = (t) => T.subst(t, sk);
    const cond = (o) => sub(T.and(o.s.since(run.s0.pc).filter((p) => p.kind === 'b').map((p) => p.t)));
    if (exits.length) return this.exitFold(s, n, list, run, j, sk, hvTerm, mentions, cond);
    const conds = conts.map(cond);
    // facts about elements (independent of the carried state)
    const facts = [];
    for (const o of conts) { const pre = []; for (const p of o.s.since(run.s0.pc)) { if (p.kind === 'b') pre.push(p.t); else facts.push(sub(T.implies(T.and(pre), p.t))); } }
    for (const p of run.s0.since(run.sHead.pc)) facts.push(sub(p.t));
    const rangeJ = T.and(T.cmp('<=', T.int(0), j), T.cmp('<', j, n));
    const fs = [...new Set(facts)].filter((f) => !mentions(f) && f !== T.cmp('<=', T.int(0), j) && f !== T.cmp('<', j, n));
    let s1 = s;
    if (fs.length) s1 = s1.assume(this.quant(j, T.implies(rangeJ, T.and(fs))), 'f');
    // step terms
    const steps = new Map();
    for (const m of list) {
      const alts = conts.map((o) => { const t = termOf(this, o.s, m, this.getMod(o.s, m)); return t && sub(t); });
      if (alts.some((t) => !t)) return null;
      if (alts.some((t) => t.sort !== alts[0].sort)) return null;
      let acc = alts[alts.length - 1];
      for (let i = alts.length - 2; i >= 0; i--) acc = T.ite(conds[i], alts[i], acc);
      steps.set(m, { alts, step: acc });
    }
    const condFree = conds.every((c) => !mentions(c));
    const result = new Map();
    const rest = [];
    for (const m of list) {
      const { alts, step } = steps.get(m);
      if (!mentions(step)) { // memoryless
        const init = this.initTerm(s, m, hvTerm.get(m).sort);
        result.set(m, T.ite(T.cmp('<', T.int(0), n), T.subst(step, new Map([[j.id, T.sub(n, T.int(1))]])), init));
        continue;
      }
      if (hvTerm.get(m).sort === 'Seq') {
        const h = hvTerm.get(m);
        const E = alts.map((t) => this.stripPrefix(t, h));
        if (E.every((e) => e && !mentions(e)) && (condFree)) {
          let acc = E[E.length - 1];
          for (let i = E.length - 2; i >= 0; i--) acc = T.ite(conds[i], E[i], acc);
          const [s2, flat] = this.flatTerm(s1, acc, j, n, rangeJ);
          s1 = s2;
          result.set(m, T.concat(this.initTerm(s, m, 'Seq'), flat));
          continue;
        }
        const st = this.stripPrefix(step, h);
        if (st && !mentions(st)) {
          const [s2, flat] = this.flatTerm(s1, st, j, n, rangeJ);
          s1 = s2;
          result.set(m, T.concat(this.initTerm(s, m, 'Seq'), flat));
          continue;
        }
      }
      if (hvTerm.get(m).sort === 'Dict') {
        const r = this.keyedStores(s1, step, hvTerm.get(m), this.initTerm(s, m, 'Dict'), j, n, mentions);
        if (r) { s1 = r[0]; result.set(m, r[1]); continue; }
        const r2 = this.sameStores(s1, step, hvTerm.get(m), this.initTerm(s, m, 'Dict'), j, n, mentions);
        if (r2) { s1 = r2[0]; result.set(m, r2[1]); continue; }
      }
      if (hvTerm.get(m).sort === 'Bool') { // a flag that is only lowered, or only raised
        const h = hvTerm.get(m), f = T.subst(step, new Map([[h.id, T.FALSE()]])), t = T.subst(step, new Map([[h.id, T.TRUE()]])), init = this.initTerm(s, m, 'Bool');
        if (T.isF(f) && !mentions(t)) { result.set(m, T.and(init, this.quant(j, T.implies(rangeJ, t)))); continue; }
        if (T.isT(t) && !mentions(f)) { result.set(m, T.or(init, T.not(this.quant(j, T.implies(rangeJ, T.not(f)))))); continue; }
      }
      rest.push(m);
    }
    if (rest.length) {
      // components the rest depends on must be part of the fold
      for (let grew = true; grew;) {
        grew = false;
        for (const m of list) if (!rest.includes(m)) {
          const h = hvTerm.get(m);
          for (const r of rest) if (!grew && T.constsOf(steps.get(r).step).has(h)) { rest.push(m); result.delete(m); grew = true; }
        }
      }
      rest.sort((a, b) => list.indexOf(a) - list.indexOf(b));
      // each component is folded with exactly the components it depends on
      const deps = (m0) => {
        const d = new Set([m0]);
        for (const m of d) { const cs = T.constsOf(steps.get(m).step); for (const r of rest) if (cs.has(hvTerm.get(r))) d.add(r); }
        return rest.filter((m) => d.has(m));
      };
      for (const m0 of rest) {
        const group = deps(m0);
        const [s2, terms] = this.foldTerm(s1, group.map((m) => ({ h: hvTerm.get(m), step: steps.get(m).step, init: this.initTerm(s, m, hvTerm.get(m).sort) })), j, n);
        s1 = s2;
        result.set(m0, terms[group.indexOf(m0)]);
      }
    }
    let se = s1;
    for (const [m, t] of result) {
      const cur = this.getMod(s, m);
      if (m.kind === 'chunk') {
        if (cur.kind === 'arr') { const es = null; se = se.set(m.id, { kind: 'arr', t, ty: cur.ty }); }
        else if (cur.kind === 'obj') se = se.set(m.id, { ...cur, dict: t, over: new Map() });
        else se = se.set(m.id, { ...cur, t });
      } else {
        const h = run.hv.get(this.modKey(m));
        if (h.k === 'val' && h.ty && this.plainType(h.ty)) se = se.assume(this.hasType(t, h.ty));
        const v = h.k === 'val' ? this.fromVal(t, h.ty) : { ...h, t };
        se = this.setMod(se, m, v);
      }
    }
    return this.finishLoop([{ s: se, c: 'loopdone', v: U }]);
  },
  // every iteration writes at most one entry, always the same value: an entry is that value if some iteration writes it, and else untouched
  sameStores(s, step, h, init, j, n, mentions) {
    const uses = (t) => { const st = [t], seen = new Set(); while (st.length) { const x = st.pop(); if (x === j) return true; if (seen.has(x.id)) continue; seen.add(x.id); st.push(...x.args); } return false; };
    let K = null, v = null, c = T.TRUE();
    let t = step;
    while (t.op === 'ite') {
      if (mentions(t.args[0])) return null;
      if (t.args[1] === h) { c = T.and(c, T.not(t.args[0])); t = t.args[2]; } else if (t.args[2] === h) { c = T.and(c, t.args[0]); t = t.args[1]; } else return null;
    }
    if (t.op !== 'store' || t.args[0] !== h) return null;
    [, K, v] = t.args;
    if (mentions(K) || mentions(v) || uses(v)) return null;
    const { name, consts } = this.canon('stores', [step, n], [j, h]);
    const R_ = T.uf(name, [init, ...consts], 'Dict');
    const k = T.cst('$kk', 'String'), at = T.uf(name + '_at', [...consts, k], 'Int');
    const rng = (i) => T.and(T.cmp('<=', T.int(0), i), T.cmp('<', i, n)), sub = (x, i) => T.subst(x, new Map([[j.id, i]]));
    s = s.assume(this.quant(j, T.implies(T.and(rng(j), c), T.eq(T.select(R_, K), v))), 'f');
    return [s.assume(this.quant(k, T.or(T.eq(T.select(R_, k), T.select(init, k)), T.and(rng(at), sub(c, at), K.op === 'un' ? T.is(K.extra, sub(K.args[0], at)) : T.TRUE(), T.eq(sub(K, at), k), T.eq(T.select(R_, k), v)))), 'f'), R_];
  },
  // every iteration writes at most the entry of its own key, the keys being those of a dictionary (hence distinct)
  keyedStores(s, step, h, init, j, n, mentions) {
    let K = null;
    const scan = (t) => {
      if (t === h) return true;
      if (t.op === 'ite') return !mentions(t.args[0]) && scan(t.args[1]) && scan(t.args[2]);
      if (t.op === 'store') { if (K && K !== t.args[1]) return false; K = t.args[1]; return !mentions(t.args[2]) && scan(t.args[0]); }
      return false;
    };
    if (!scan(step) || !K || K.op !== 'un' || K.extra !== 'Str' || K.args[0].op !== 'seq.nth' || K.args[0].args[1] !== j) return null;
    const Q = K.args[0].args[0];
    if (Q.op !== 'uf' || (Q.extra !== 'keys' && Q.extra !== 'ordKeys') || T.len(Q) !== n) return null;
    const d = Q.args[0], own = Q.args.slice(1);
    if (step.op === 'store' && step.args[0] === h && T.rd(step.args[2]) === T.rd(T.select(d, K))) return [s, T.merge(init, d)];
    const { name, consts } = this.canon('keyed', [step, Q], [j, h]);
    const R_ = T.uf(name, [init, ...consts], 'Dict');
    const k = T.cst('$kk', 'String'), idx = Q.extra === 'keys' ? T.uf('keyIdx', [d, k], 'Int') : T.uf('ordKeyIdx', [d, ...own, k], 'Int');
    const at = T.subst(T.subst(T.select(T.subst(step, new Map([[h.id, init]])), K), new Map([[K.id, k]])), new Map([[j.id, idx]]));
    return [s.assume(this.quant(k, T.eq(T.select(R_, k), T.ite(T.is('Absent', T.select(d, k)), T.select(init, k), at))), 'f'), R_];
  },
  // loops that may leave early: a fold with two extra components, which exit was taken (0: none) and its value
  exitFold(s, n, list, run, j, sk, hvTerm, mentions, cond) {
    const conts = run.outs.filter((o) => o.c === 'norm'), exits = run.outs.filter((o) => o.c !== 'norm');
    const sub = (t) => T.subst(t, sk);
    const facts = [];
    for (const o of run.outs) { const pre = []; for (const p of o.s.since(run.s0.pc)) { if (p.kind === 'b') pre.push(p.t); else facts.push(sub(T.implies(T.and(pre), p.t))); } }
    for (const p of run.s0.since(run.sHead.pc)) facts.push(sub(p.t));
    const rangeJ = T.and(T.cmp('<=', T.int(0), j), T.cmp('<', j, n));
    const fs = [...new Set(facts)].filter((f) => !mentions(f) && f !== T.cmp('<=', T.int(0), j) && f !== T.cmp('<', j, n));
    let s1 = s;
    if (fs.length) s1 = s1.assume(this.quant(j, T.implies(rangeJ, T.and(fs))), 'f');
    const exH = T.fresh('exit', 'Int'), rvH = T.fresh('rv', 'Val');
    const vals = exits.map((o) => (o.v.k === 'ref' || o.v.k === 'fn' ? null : sub(this.toVal(o.s, o.v))));
    if (vals.some((v) => v === null)) return null;
    const dep = vals.some((v) => { for (const c of T.constsOf(v)) if (c === j || T.freshStamp(c) > run.mark) return true; return v.op !== 'uf' ? [...T.constsOf(v)].some((c) => hvTermHas(hvTerm, c)) : true; });
    const comps = [];
    const pick = (alts, conds, dflt) => { let acc = dflt; for (let i = alts.length - 1; i >= 0; i--) acc = T.ite(conds[i], alts[i], acc); return acc; };
    const outsAll = [...exits, ...conts];
    const conds = outsAll.map(cond);
    const running = T.eq(exH, T.int(0));
    for (const m of list) {
      const alts = outsAll.map((o) => { const t = termOf(this, o.s, m, this.getMod(o.s, m)); return t && sub(t); });
      const h = hvTerm.get(m);
      if (alts.some((t) => !t || t.sort !== h.sort)) return null;
      comps.push({ h, step: T.ite(running, pick(alts.slice(0, -1), conds, alts[alts.length - 1]), h), init: this.initTerm(s, m, h.sort) });
    }
    comps.push({ h: exH, step: T.ite(running, pick(exits.map((_, i) => T.int(i + 1)), conds, T.int(0)), exH), init: T.int(0) });
    if (dep) comps.push({ h: rvH, step: T.ite(running, pick(vals, conds, rvH), rvH), init: T.V.Undef() });
    const [s2, terms] = this.foldTerm(s1, comps, j, n);
    const ex = terms[list.length];
    const outs = [];
    const setAll = (st) => { list.forEach((m, i) => { const cur = this.getMod(s, m), t = terms[i]; if (m.kind === 'chunk') { st = st.set(m.id, cur.kind === 'arr' ? { kind: 'arr', t, ty: cur.ty } : cur.kind === 'obj' ? { ...cur, dict: t, over: new Map() } : { ...cur, t }); } else { const h = run.hv.get(this.modKey(m)); if (h.k === 'val' && h.ty && this.plainType(h.ty)) st = st.assume(this.hasType(t, h.ty)); st = this.setMod(st, m, h.k === 'val' ? this.fromVal(t, h.ty) : { ...h, t }); } }); return st; };
    let rest = s2.assume(T.and(T.cmp('<=', T.int(0), ex), T.cmp('<=', ex, T.int(exits.length))), 'f');
    for (let i = 0; i <= exits.length && rest; i++) {
      const fk = i === exits.length ? [[rest, true]] : this.fork(rest, T.eq(ex, T.int(i)));
      rest = null;
      for (const [st, yes] of fk) {
        if (!yes) { rest = st; continue; }
        const s3 = setAll(st);
        if (i === 0) outs.push({ s: s3, c: 'loopdone', v: U });
        else { const o = exits[i - 1]; let s4 = s3; const ty = dep && this.plainTyOf(o.v); if (ty) s4 = s4.assume(this.hasType(terms[list.length + 1], ty)); outs.push({ ...o, s: s4, v: dep ? this.fromVal(terms[list.length + 1], this.plainTyOf(o.v)) : o.v }); }
      }
    }
    return this.finishLoop(outs);
  },
  plainTyOf(v) {
    const ty = v.k === 'val' || v.k === 'obj' || v.k === 'arr' ? v.ty : ['str', 'bool'].includes(v.k) ? { k: v.k } : undefined;
    return ty && this.plainType(ty) ? ty : undefined;
  },
  initTerm(s, m, sort) {
    const cur = this.getMod(s, m);
    if (m.kind === 'chunk') return termOf(this, s, m, cur);
    if (sort === 'Val') return this.toVal(s, cur);
    if (sort === 'Real') return T.toReal(cur.t);
    return cur.t;
  },
  stripPrefix(t, h) {
    if (t === h) return T.emptySeq();
    if (t.op === 'seq.++' && t.args[0] === h) return T.concat(t.args.slice(1));
    if (t.op === 'ite') { const a = this.stripPrefix(t.args[1], h), b = this.stripPrefix(t.args[2], h); return a && b ? T.ite(t.args[0], a, b) : null; }
    return null;
  },
  // canonical key of terms over bound positions: every maximal subterm that does not depend on the bound
  // positions becomes a parameter, so that loops over provably equal data are equal by congruence
  canon(kind, terms, bound) {
    const ren0 = new Map(bound.map((b, i) => [b.id, T.bvar(`$b${i}`, b.sort)]));
    const body = T.mk('tuple', terms.map((t) => T.subst(t, ren0)), 'Bool');
    const depM = new Map(), symM = new Map();
    const dep = (t) => { const h = depM.get(t.id); if (h !== undefined) return h; const r = t.op === 'bvar' || t.args.some(dep); depM.set(t.id, r); return r; };
    const sym = (t) => { const h = symM.get(t.id); if (h !== undefined) return h; const r = t.op === 'const' || t.op === 'uf' || t.args.some(sym); symM.set(t.id, r); return r; };
    const params = [], seen = new Set();
    const go = (t) => {
      if (seen.has(t.id)) return;
      seen.add(t.id);
      if (!dep(t)) { if (sym(t)) params.push(t); return; }
      for (const a of t.args) go(a);
    };
    for (const a of body.args) go(a);
    const ren = new Map(params.map((c, i) => [c.id, T.cst(`$p${i}`, c.sort)]));
    const key = T.subst(body, ren).id + ':' + params.map((c) => c.sort).join(',');
    this.canons = this.canons || new Map();
    const kk = kind + key;
    if (!this.canons.has(kk)) this.canons.set(kk, `${kind}_${this.canons.size + 1}`);
    return { name: this.canons.get(kk), consts: params };
  },
  // an object with identity created in the body has a different identity in every iteration
  noNewRefs(s, terms) {
    const seen = new Set(), st = [...terms];
    while (st.length) {
      const x = st.pop();
      if (seen.has(x)) continue;
      seen.add(x);
      if (x.op === 'Ref' && x.args[0].op === 'int' && !s.heap.has(Number(x.args[0].extra)) && !this.initHeap.has(Number(x.args[0].extra))) throw new Unsupported('an object with identity created in a summarised loop');
      for (const a of x.args) st.push(a);
    }
  },
  flatTerm(s, E, j, n, rangeJ) {
    if (E.op === 'emptySeq') return [s, E];
    this.noNewRefs(s, [E]);
    const { name, consts } = this.canon('flat', [E, n], [j]);
    const t = T.uf(name, consts, 'Seq');
    this.flats = this.flats || new Map();
    if (!this.flats.has(t)) this.flats.set(t, { E, j, n });
    return [s.assume(this.flatAxioms(t, E, j, n)), t];
  },
  // facts about element i of a sequence term, from the definition of the sequence
  elementFacts(t, i) {
    const out = [];
    if (t.op === 'uf' && (t.extra === 'keys' || t.extra === 'ordKeys')) { // an element of a key list is a present key, at its own index
      const el = T.nth(t, i), d = t.args[0], key = T.un('Str', el);
      const idx = t.extra === 'keys' ? T.uf('keyIdx', [d, key], 'Int') : T.uf('ordKeyIdx', [d, ...t.args.slice(1), key], 'Int');
      out.push(T.implies(T.and(T.cmp('<=', T.int(0), i), T.cmp('<', i, T.len(t))), T.and(T.is('Str', el), T.not(T.is('Absent', T.select(d, key))), T.eq(idx, i))));
    }
    if (t.op === 'uf' && this.flats?.has(t)) {
      const { E, j, n } = this.flats.get(t);
      const at = (x, k) => T.subst(x, new Map([[j.id, k]]));
      const ok = T.and(T.cmp('<=', T.int(0), i), T.cmp('<', i, T.len(t)));
      if (E.op === 'seq.unit') out.push(T.implies(ok, T.eq(T.nth(t, i), at(E.args[0], i))));
      else {
        const sh = this.flatShape(E);
        if (sh && sh.v) { const k = T.uf('src_' + t.extra, [...t.args, i], 'Int'); out.push(T.implies(ok, T.and(T.cmp('<=', T.int(0), k), T.cmp('<', k, n), at(sh.c, k), T.eq(T.nth(t, i), at(sh.v, k))))); for (const f of this.flatElFacts(sh, at, k)) out.push(T.implies(ok, f)); }
      }
    }
    return out;
  },
  // the element of a filtered sequence is itself an element of another sequence term
  flatElFacts(sh, at, k) {
    const v = at(sh.v, k);
    const out = [], seen = new Set(), st = [v];
    while (st.length) { const x = st.pop(); if (seen.has(x)) continue; seen.add(x); if (x.op === 'seq.nth') out.push(...this.elementFacts(x.args[0], x.args[1])); for (const a of x.args) st.push(a); }
    return out;
  },
  flatShape(e) {
    if (e.op === 'emptySeq') return { c: T.FALSE(), v: null };
    if (e.op === 'seq.unit') return { c: T.TRUE(), v: e.args[0] };
    if (e.op === 'ite') { const a = this.flatShape(e.args[1]), b = this.flatShape(e.args[2]); if (!a || !b) return null; return { c: T.ite(e.args[0], a.c, b.c), v: a.v && b.v ? T.ite(e.args[0], a.v, b.v) : a.v || b.v }; }
    return null;
  },
  flatAxioms(t, E, j, n) {
    const L = T.len(t);
    const inR = (x, m) => T.and(T.cmp('<=', T.int(0), x), T.cmp('<', x, m));
    if (E.op === 'seq.unit') {
      const ax = [T.eq(L, T.ite(T.cmp('<=', T.int(0), n), n, T.int(0)))];
      ax.push(this.quant(j, T.implies(inR(j, n), T.eq(T.nth(t, j), E.args[0]))));
      return T.and(ax);
    }
    // conditional append of at most one element
    const sh = this.flatShape(E);
    if (sh && sh.v) {
      const src = (i) => T.uf('src_' + t.extra, [...t.args, i], 'Int');
      const pos = (i) => T.uf('pos_' + t.extra, [...t.args, i], 'Int');
      const at = (x, i) => T.subst(x, new Map([[j.id, i]]));
      const ax = [T.cmp('<=', L, T.ite(T.cmp('<=', T.int(0), n), n, T.int(0)))];
      ax.push(T.eq(T.eq(L, T.int(0)), this.quant(j, T.implies(inR(j, n), T.not(sh.c)))));
      ax.push(this.quant(j, T.implies(inR(j, L), T.and(inR(src(j), n), at(sh.c, src(j)), T.eq(T.nth(t, j), at(sh.v, src(j))), T.eq(pos(src(j)), j)))));
      ax.push(this.quant(j, T.implies(T.and(inR(j, n), sh.c), T.and(inR(pos(j), L), T.eq(src(pos(j)), j)))));
      return T.and(ax);
    }
    return T.TRUE();
  },
  foldTerm(s, comps, j, n) {
    const bound = [j, ...comps.map((c) => c.h)];
    this.noNewRefs(s, comps.map((c) => c.step));
    const { name, consts } = this.canon('fold', [...comps.map((c) => c.step), n], bound);
    const terms = comps.map((c, i) => T.uf(`${name}_${i}`, [...comps.map((x) => x.init), ...consts], c.h.sort));
    this.folds = this.folds || new Map();
    const key = terms.map((t) => t.id).join(',');
    const isNew = !this.folds.has(key);
    this.folds.set(key, { terms, comps, j, n });
    let s2 = s;
    // zero iterations
    s2 = s2.assume(T.implies(T.cmp('<=', n, T.int(0)), T.and(comps.map((c, i) => T.eq(terms[i], c.init)))));
    // typed components keep their shape
    return [s2, terms];
  },
  // lemma instances for the FLAT/FOLD terms of one obligation
  foldLemmas(asserts) {
    const out = [];
    const seen = new Set();
    const used = new Set();
    const st = [...asserts];
    while (st.length) { const x = st.pop(); if (seen.has(x.id)) continue; seen.add(x.id); if (x.op === 'uf') used.add(x); for (const a of x.args) st.push(a); }
    // JSON: what was written can be read, and reads as what was written when that consists of JSON values only
    for (const t of used) {
      if (T.hasBvar(t) && T.freeBvars(t).size) continue;
      if (t.extra === 'json_str') out.push(T.not(T.uf('json_bad', [t], 'Bool')), T.implies(T.uf('jsonlike', [t.args[0]], 'Bool'), T.eq(T.uf('json_parse', [t], 'Val'), t.args[0])));
      // URLs: printing a URL and parsing it gives its parts; likewise for query strings
      if (t.extra === 'qs_print') out.push(T.eq(T.uf('qs_parse', [T.ctor('Str', t)], 'Seq'), T.un('Arr', t.args[0])));
      if (t.extra === 'url_text') {
        const v = [T.ctor('Str', t)];
        out.push(T.not(T.uf('url_bad', v, 'Bool')));
        ['url_rest', 'url_search', 'url_hash'].forEach((f, i) => out.push(T.eq(T.uf(f, v, 'String'), T.un('Str', t.args[i]))));
      }
      if (t.extra === 'url_search_set') out.push(T.implies(T.eq(T.un('Str', t.args[0]), T.str('')), T.eq(t, T.str(''))));
      if (t.extra === 'qs_parse') {
        const j = T.fresh('qj', 'Int'), el = T.nth(t, j), a = T.un('Arr', el);
        out.push(this.quant(j, T.implies(T.and(T.cmp('<=', T.int(0), j), T.cmp('<', j, T.len(t))), T.and(T.is('Arr', el), T.eq(T.len(a), T.int(2)), T.is('Str', T.nth(a, T.int(0))), T.is('Str', T.nth(a, T.int(1))), T.eq(a, T.concat(T.unit(T.nth(a, T.int(0))), T.unit(T.nth(a, T.int(1)))))))));
      }
      if (t.extra === 'qs_parse') out.push(T.implies(T.eq(t.args[0], T.ctor('Str', T.str(''))), T.eq(t, T.emptySeq())));
      if (t.extra === 'json_parse') out.push(T.uf('jsonlike', [t], 'Bool'), ...['Ref', 'Fn', 'NaN', 'PInf', 'NInf'].map((k) => T.not(T.is(k, t))));
      if (t.extra === 'json_parse') out.push(T.implies(T.eq(t.args[0], T.str('{}')), T.and(T.eq(t, T.ctor('Obj', T.emptyDict())), T.not(T.uf('json_bad', [t.args[0]], 'Bool')))));
    }
    if (this.opts.noFlatPairs) return out;
    const flats = [...(this.flats || new Map())].filter(([t]) => used.has(t));
    for (let i = 0; i < flats.length; i++) for (let k = i + 1; k < flats.length; k++) {
      const [t1, f1] = flats[i], [t2, f2] = flats[k];
      if (f1.E.op !== f2.E.op) continue;
      const jj = f1.j;
      const E2 = T.subst(f2.E, new Map([[f2.j.id, jj]]));
      const same = this.quant(jj, T.implies(T.and(T.cmp('<=', T.int(0), jj), T.cmp('<', jj, f1.n)), T.eq(f1.E, E2)));
      out.push(T.implies(T.and(T.eq(f1.n, f2.n), same), T.eq(t1, t2)));
    }
    const folds = [...(this.folds || new Map()).values()].filter((f) => f.terms.some((t) => used.has(t)));
    for (let i = 0; i < folds.length; i++) for (let k = i + 1; k < folds.length; k++) {
      const a = folds[i], b = folds[k];
      if (a.comps.length !== b.comps.length) continue;
      for (const perm of perms(b.comps.length)) {
        if (!a.comps.every((c, x) => c.h.sort === b.comps[perm[x]].h.sort)) continue;
        const jj = a.j;
        const m = new Map([[b.j.id, jj], ...a.comps.map((c, x) => [b.comps[perm[x]].h.id, c.h])]);
        const inits = a.comps.map((c, x) => T.eq(c.init, b.comps[perm[x]].init));
        const steps = a.comps.map((c, x) => T.eq(c.step, T.subst(b.comps[perm[x]].step, m)));
        let q = T.implies(T.and(T.cmp('<=', T.int(0), jj), T.cmp('<', jj, a.n)), T.and(steps));
        q = this.quantMany([jj, ...a.comps.map((c) => c.h)], q);
        out.push(T.implies(T.and(T.eq(a.n, b.n), ...inits, q), T.and(a.terms.map((t, x) => T.eq(t, b.terms[perm[x]])))));
        if (perm.every((p, x) => p === x)) break;
      }
    }
    return out;
  },
  quantMany(cs, body) {
    let mx = 0;
    const seen = new Set(), st = [body];
    while (st.length) { const x = st.pop(); if (seen.has(x.id)) continue; seen.add(x.id); if (x.op === 'bvar') { const k = /^q(\d+)$/.exec(x.extra); if (k) mx = Math.max(mx, +k[1]); } for (const a of x.args) st.push(a); }
    const bs = cs.map((c, i) => T.bvar(`q${mx + 1 + i}`, c.sort));
    return T.forall(bs, T.subst(body, new Map(cs.map((c, i) => [c.id, bs[i]]))));
  },
};
function perms(n) {
  if (n === 1) return [[0]];
  if (n === 2) return [[0, 1], [1, 0]];
  if (n === 3) return [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
  return [[...Array(n).keys()]];
}
Object.assign(Exec.prototype, P);
