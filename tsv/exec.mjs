// Forward symbolic execution of TypeScript ASTs over all inputs. See DESIGN.md for the semantics.
import * as T from './terms.mjs';
import { ts, loadModule, lookupExport, lookupImport, resolveType, propType, elemType, anyType, isStatic, isAsync, isServiceType, unionType, collectNames } from './front.mjs';
import { feasible } from './solver.mjs';
const SK = ts.SyntaxKind;

export class Unsupported extends Error {
  constructor(msg, node) {
    let at = '';
    if (node && node.getSourceFile) {
      const sf = node.getSourceFile();
      const p = sf.getLineAndCharacterOfPosition(node.getStart(sf));
      at = ` at ${sf.fileName.replace(/^.*\/packages\//, 'packages/')}:${p.line + 1}`;
    }
    super(msg + at);
  }
}

// ------------------------------------------------------------------ values
export const U = { k: 'undef' };
export const N = { k: 'null' };
export const B = (t) => ({ k: 'bool', t: typeof t === 'boolean' ? T.bool(t) : t });
export const I = (t) => ({ k: 'int', t: typeof t === 'number' ? T.int(t) : t });
export const R = (t) => (t.op === 'to_real' ? I(t.args[0]) : t.op === 'real' && Number.isInteger(Number(t.extra)) ? I(T.int(Number(t.extra))) : { k: 'num', t });
export const S = (t) => ({ k: 'str', t: typeof t === 'string' ? T.str(t) : t });
export const VAL = (t, ty) => ({ k: 'val', t, ty });
export const ARR = (t, ty) => ({ k: 'arr', t, ty });
export const OBJ = (t, ty) => ({ k: 'obj', t, ty });
export const REF = (id) => ({ k: 'ref', id });
export const W = (t, u) => ({ k: 'i32', t, u: !!u });
export const NANV = { k: 'nan' };
export const INF = (neg) => ({ k: 'inf', neg: !!neg });
const isNumK = (v) => v.k === 'int' || v.k === 'num';

// ------------------------------------------------------------------ states
export class State {
  constructor(heap, pc) { this.heap = heap; this.pc = pc; }
  fork() { return new State(new Map(this.heap), this.pc); }
  assume(t, kind = 'f') {
    if (T.isT(t)) return this;
    if (t.op === 'and') { let s = this; for (const a of t.args) s = s.assume(a, kind); return s; }
    for (let p = this.pc; p; p = p.prev) if (p.t === t) return this;
    return new State(this.heap, { t, kind, prev: this.pc, n: (this.pc ? this.pc.n : 0) + 1 });
  }
  get(id) { return this.heap.get(id); }
  set(id, c) { const s = new State(new Map(this.heap), this.pc); s.heap.set(id, c); return s; }
  terms() { const out = []; for (let p = this.pc; p; p = p.prev) out.push(p.t); return out.reverse(); }
  since(pc0) { const out = []; for (let p = this.pc; p && p !== pc0; p = p.prev) out.push(p); return out.reverse(); }
}
const norm = (s, v) => ({ s, c: 'norm', v });
const throwO = (s, v) => ({ s, c: 'throw', v });
export { norm, throwO };

let nextChunk = 1000;
export const newId = () => nextChunk++;

// ------------------------------------------------------------------ the executor
export class Exec {
  constructor(opts = {}) {
    this.opts = opts;
    this.spec = 0; // spec-evaluation depth (merging, no feasibility pruning)
    this.fns = []; // function registry
    this.fnIds = new Map();
    this.lazy = new Map(); // `${chunkId}.${field}` -> V  (deterministic lazy initialisation)
    this.varTypes = new Map(); // declared types of local variables
    this.initHeap = new Map(); // chunks of the pre-state created lazily
    this.moduleScopes = new Map();
    this.contractFor = opts.contractFor || (() => null); // node -> call contract
    this.overrides = opts.overrides || {};
    this.externals = opts.externals || {};
    this.stack = [];
    this.notes = new Set();
    this.assumptions = new Set();
    this.covered = new Set(); // function nodes executed
    this.obligations = [];
    this.loops = []; // loop summaries, for simulation lemmas
    this.invs = opts.loops || [];
    this.maxDepth = 60;
    this.pathBudget = opts.pathBudget || 4000;
    this.traceId = newId();
    this.worldId = newId();
    this.initHeap.set(this.traceId, { kind: 'arr', t: T.emptySeq() });
  }
  initialState() {
    return new State(new Map(this.initHeap), null);
  }
  alloc(s, chunk) {
    const id = newId();
    const s2 = s.set(id, chunk);
    return [s2, REF(id)];
  }
  // a chunk that belongs to the pre-state (reachable from inputs), visible to old()
  allocInit(s, chunk) {
    const id = newId();
    this.initHeap.set(id, chunk);
    return [s.set(id, chunk), REF(id)];
  }
  fnId(f) {
    let i = this.fnIds.get(f);
    if (i === undefined) { i = this.fns.length + 1; this.fns.push(f); this.fnIds.set(f, i); }
    return i;
  }

  // ---------------------------------------------------------------- conversion
  toVal(s, v) {
    switch (v.k) {
      case 'undef': return T.V.Undef();
      case 'null': return T.V.Null();
      case 'nan': return T.V.NaN();
      case 'inf': return v.neg ? T.V.NInf() : T.V.PInf();
      case 'bool': return T.ctor('VBool', v.t);
      case 'int': return T.ctor('Num', T.toReal(v.t));
      case 'num': return T.ctor('Num', v.t);
      case 'str': return T.ctor('Str', v.t);
      case 'arr': return T.ctor('Arr', v.t);
      case 'obj': return v.t.op === 'un' && v.t.extra === 'Obj' ? v.t.args[0] : T.ctor('Obj', v.t);
      case 'val': return v.t;
      case 'i32': return T.ctor('I32', v.t);
      case 'fn': return T.ctor('Fn', T.int(this.fnId(v.fn)));
      case 'ref': {
        const c = s.get(v.id);
        if (!c) throw new Unsupported('dangling reference');
        if (c.val) return c.val;
        if (c.kind === 'arr') return T.ctor('Arr', this.seqOf(s, v.id));
        if (c.kind === 'obj' && !c.cls && !c.ext && !c.identity) return T.ctor('Obj', this.dictOf(s, v.id));
        return T.ctor('Ref', T.int(v.id));
      }
      case 'class': case 'enumobj': case 'ns': return T.ctor('Fn', T.int(this.fnId(v)));
      case 'extname': return T.cst(`extern(${v.name})`, 'Val');
      default: throw new Unsupported(`cannot convert ${v.k} to a value term`);
    }
  }
  fromVal(t, ty) {
    switch (t.op) {
      case 'Undef': case 'Absent': return U;
      case 'Null': return N;
      case 'NaN': return NANV;
      case 'PInf': return INF(false);
      case 'NInf': return INF(true);
      case 'VBool': return B(t.args[0]);
      case 'Num': return R(t.args[0]);
      case 'Str': return S(t.args[0]);
      case 'Arr': return ARR(t.args[0], ty);
      case 'Obj': return OBJ(t.args[0], ty);
      case 'I32': return W(t.args[0]);
      case 'Ref': if (t.args[0].op === 'int') return REF(Number(t.args[0].extra)); break;
      case 'Fn': if (t.args[0].op === 'int') { const f = this.fns[Number(t.args[0].extra) - 1]; return f.k ? f : { k: 'fn', fn: f }; } break;
    }
    return VAL(T.rd(t), ty);
  }
  seqOf(s, id) {
    const c = s.get(id);
    if (c.els) return T.concat(c.els.map((v) => T.unit(this.toVal(s, v))));
    return c.t;
  }
  dictOf(s, id) {
    const c = s.get(id);
    let d = c.dict;
    for (const [k, v] of c.over) d = T.store(d, T.str(k), v === null ? T.V.Absent() : this.toVal(s, v));
    return d;
  }
  // refine a value term by a trusted declared type: returns [state, V]
  typed(s, t, ty, depth = 0) {
    const v = this.fromVal(t, ty);
    if (v.k !== 'val' || !ty || ty.k === 'any') return [s, v];
    const tt = v.t;
    switch (ty.k) {
      case 'str': case 'lit': return [s.assume(T.is('Str', tt)), S(T.un('Str', tt))];
      case 'num': return [s.assume(T.is('Num', tt)), R(T.un('Num', tt))];
      case 'bool': return [s.assume(T.is('VBool', tt)), B(T.un('VBool', tt))];
      case 'undef': return [s.assume(T.is('Undef', tt)), U];
      case 'null': return [s.assume(T.is('Null', tt)), N];
      case 'arr': return [s.assume(T.is('Arr', tt)), ARR(T.un('Arr', tt), ty)];
      case 'rec': return [s.assume(T.is('Obj', tt)), OBJ(T.un('Obj', tt), ty)];
      case 'obj': if (isServiceType(ty)) return this.extFor(s, tt, ty); return [s.assume(T.is('Obj', tt)), OBJ(T.un('Obj', tt), ty)];
      case 'fn': return this.extFor(s, tt, ty);
      case 'union': {
        const f = this.hasType(tt, ty);
        return [f ? s.assume(f) : s, v];
      }
      default: return [s, v];
    }
  }
  hasType(t, ty) {
    switch (ty.k) {
      case 'str': case 'lit': return T.is('Str', t);
      case 'num': return T.is('Num', t);
      case 'bool': return T.is('VBool', t);
      case 'undef': return T.is('Undef', t);
      case 'null': return T.is('Null', t);
      case 'arr': return T.is('Arr', t);
      case 'rec': return T.is('Obj', t);
      case 'obj': return isServiceType(ty) ? null : T.is('Obj', t);
      case 'union': { const fs = ty.types.map((x) => this.hasType(t, x)); return fs.some((f) => !f) ? null : T.or(fs); }
      default: return null;
    }
  }
  // an external object standing for the value term t
  extFor(s, t, ty) {
    const key = `ext:${t.id}`;
    if (this.lazy.has(key)) { const v = this.lazy.get(key); return [s.get(v.id) ? s : this.bring(s, v.id), v]; }
    const [s2, r] = this.allocInit(s, { kind: 'obj', dict: T.emptyDict(), over: new Map(), ext: ty.name || ty.k, ty, path: `v${t.id}`, val: t });
    this.lazy.set(key, r);
    return [s2, r];
  }
  // symbolic input of a declared type: returns [state, V]
  symbolic(s, name, ty, how = {}) {
    const over = how[name] ?? this.opts.inputs?.[name];
    if (over) { const r = over(this, s, name, ty); if (r) return r; }
    switch (ty.k) {
      case 'str': { const t = T.cst(name, 'String'); let s2 = s; if (ty.enum) s2 = s.assume(T.or(ty.enum.map((e) => T.eq(t, T.str(e))))); return [s2, S(t)]; }
      case 'lit': return [s, S(T.str(ty.v))];
      case 'num': return [s, R(T.cst(name, 'Real'))];
      case 'bool': return [s, B(T.cst(name, 'Bool'))];
      case 'undef': return [s, U];
      case 'null': return [s, N];
      case 'cls': return this.allocInit(s, { kind: 'obj', cls: ty.decl, m: ty.m, dict: T.emptyDict(), over: new Map(), lazyCls: true, typeEnv: ty.env, path: name });
      case 'map': return this.allocInit(s, { kind: 'map', t: T.cst(name, 'VMap'), path: name, ty });
      case 'set': return this.allocInit(s, { kind: 'set', t: T.cst(name, 'VSet'), keys: T.cst(name + '.keys', 'Seq'), path: name, ty });
      case 'fn': return this.allocInit(s, { kind: 'obj', dict: T.emptyDict(), over: new Map(), ext: 'fn', ty, path: name });
      case 'ext': return this.allocInit(s, { kind: 'obj', dict: T.emptyDict(), over: new Map(), ext: ty.name, ty, path: name });
      case 'obj': if (isServiceType(ty)) return this.allocInit(s, { kind: 'obj', dict: T.emptyDict(), over: new Map(), ext: ty.name || 'service', ty, path: name });
      // fallthrough
      default: {
        const c = T.cst(name, 'Val');
        let s2 = s.assume(T.not(T.is('Absent', c)));
        if (ty.k === 'union') {
          const plain = ty.types.filter((x) => x.k !== 'undef' && x.k !== 'null');
          if (plain.length === 1 && (plain[0].k === 'fn' || plain[0].k === 'cls' || plain[0].k === 'ext' || isServiceType(plain[0]))) {
            // optional service: decided by a boolean
            return [s, { k: 'opt', c: T.cst(name + '?', 'Bool'), some: plain[0], name, none: ty.types.some((x) => x.k === 'null') && !ty.types.some((x) => x.k === 'undef') ? N : U }];
          }
        }
        return this.typed(s2, c, ty);
      }
    }
  }
  // optional services fork on first use
  resolveOpt(s, v) {
    if (v.k !== 'opt') return [norm(s, v)];
    const out = [];
    for (const [s2, b] of this.fork(s, v.c)) {
      if (!b) { out.push(norm(s2, v.none)); continue; }
      const key = 'opt:' + v.name;
      if (!this.lazy.has(key)) { const [s3, r] = this.symbolic(s2, v.name, v.some, { [v.name]: () => null }); this.lazy.set(key, r); out.push(norm(s3, r)); }
      else { const r = this.lazy.get(key); out.push(norm(r.k === 'ref' && !s2.get(r.id) ? this.bring(s2, r.id) : s2, r)); }
    }
    return out;
  }

  // ---------------------------------------------------------------- forking
  known(s, c) {
    if (T.isT(c)) return true;
    if (T.isF(c)) return false;
    const n = T.not(c);
    for (let p = s.pc; p; p = p.prev) { if (p.t === c) return true; if (p.t === n) return false; }
    return null;
  }
  // returns [[state, bool], ...]
  fork(s, c) {
    const k = this.known(s, c);
    if (k !== null) return [[s, k]];
    const out = [];
    if (!this.spec || this.opts.specPrune) {
      const base = s.terms();
      const a = feasible([...base, c]);
      const b = a === 'unsat' ? 'sat' : feasible([...base, T.not(c)]);
      if (a !== 'unsat') out.push([b === 'unsat' ? s.assume(c, 'f') : s.assume(c, 'b'), true]);
      if (b !== 'unsat') out.push([a === 'unsat' ? s.assume(T.not(c), 'f') : s.assume(T.not(c), 'b'), false]);
      return out;
    }
    return [[s.assume(c, 'b'), true], [s.assume(T.not(c), 'b'), false]];
  }
  // split a generic value by constructor; f(kind-refined V, state)
  cases(s, v, wanted) {
    if (v.k === 'opt') return this.resolveOpt(s, v).flatMap((o) => this.cases(o.s, o.v, wanted));
    if (v.k !== 'val') return [[s, v]];
    const t = v.t;
    if (v.ty && v.ty.k === 'union' && t.op !== 'const' && this.plainType(v.ty)) s = s.assume(this.hasType(t, v.ty), 'f');
    let cur = [s];
    const out = [];
    const kinds = v.ty && v.ty.k === 'union' && this.plainType(v.ty) ? new Set(v.ty.types.flatMap((x) => ({ str: ['Str'], lit: ['Str'], num: ['Num', 'NaN', 'PInf', 'NInf', 'I32'], bool: ['VBool'], undef: ['Undef'], null: ['Null'], arr: ['Arr'], rec: ['Obj'], obj: ['Obj'], union: ['Str', 'Num', 'VBool', 'Undef', 'Null', 'Arr', 'Obj'] })[x.k] || [])) : null;
    for (const name of wanted) {
      if (kinds && !kinds.has(name)) continue;
      const next = [];
      for (const st of cur) {
        for (const [s2, yes] of this.fork(st, T.is(name, t))) {
          if (yes) out.push([s2, this.unpack(name, t, v.ty)]);
          else next.push(s2);
        }
      }
      cur = next;
      if (cur.length === 0) break;
    }
    for (const st of cur) out.push([st, { k: 'val', t, ty: v.ty, other: true }]);
    return out;
  }
  unpack(name, t, ty) {
    const strip = (kind) => (ty && ty.k === 'union' ? (() => { const c = ty.types.filter((x) => (kind === 'arr' ? x.k === 'arr' : x.k === 'obj' || x.k === 'rec')); return c.length === 1 ? c[0] : c.length ? { k: 'union', types: c } : undefined; })() : ty);
    switch (name) {
      case 'Undef': return U;
      case 'Null': return N;
      case 'NaN': return NANV;
      case 'PInf': return INF(false);
      case 'NInf': return INF(true);
      case 'VBool': return B(T.un('VBool', t));
      case 'Num': return R(T.un('Num', t));
      case 'Str': return S(T.un('Str', t));
      case 'Arr': return ARR(T.un('Arr', t), strip('arr'));
      case 'Obj': return OBJ(T.un('Obj', t), strip('obj'));
      case 'I32': return W(T.un('I32', t));
    }
  }
  // truthiness as a term
  truthy(s, v) {
    switch (v.k) {
      case 'undef': case 'null': case 'nan': return T.FALSE();
      case 'bool': return v.t;
      case 'int': case 'num': return T.not(T.eq(v.t, v.k === 'int' ? T.int(0) : T.real(0)));
      case 'str': return T.not(T.eq(v.t, T.str('')));
      case 'i32': return T.not(T.eq(v.t, T.bv(0)));
      case 'opt': return v.c;
      case 'val': return this.truthyVal(v.t, v.ty);
      default: return T.TRUE();
    }
  }
  truthyVal(t, ty) {
    if (t.op === 'ite') return T.ite(t.args[0], this.truthyVal(t.args[1]), this.truthyVal(t.args[2]));
    if (T.isCtor(t)) return this.truthy(null, this.fromVal(t));
    const falsy = [T.is('Undef', t), T.is('Null', t), T.and(T.is('VBool', t), T.not(T.un('VBool', t))), T.and(T.is('Num', t), T.eq(T.un('Num', t), T.real(0))), T.and(T.is('Str', t), T.eq(T.un('Str', t), T.str(''))), T.is('NaN', t)];
    let use = falsy;
    if (ty && ty.k === 'union') {
      const ks = new Set(ty.types.map((x) => x.k));
      use = [];
      if (ks.has('undef') || true) use.push(falsy[0]);
      if (ks.has('null') || ks.has('any') || ks.has('ext')) use.push(falsy[1]);
      if (ks.has('bool') || ks.has('ext')) use.push(falsy[2]);
      if (ks.has('num') || ks.has('ext')) use.push(falsy[3], falsy[5]);
      if (ks.has('str') || ks.has('lit') || ks.has('ext')) use.push(falsy[4]);
    }
    return T.not(T.or(use));
  }
  nullish(v) {
    switch (v.k) {
      case 'undef': case 'null': return T.TRUE();
      case 'val': return T.or(T.is('Undef', v.t), T.is('Null', v.t));
      case 'opt': return T.not(v.c);
      default: return T.FALSE();
    }
  }
  // a === b as a term
  strictEq(s, a, b) {
    if (a.k === 'opt' && (b.k === 'undef' || b.k === 'null')) return a.none.k === b.k ? T.not(a.c) : T.FALSE();
    if (b.k === 'opt' && a.k !== 'opt') return this.strictEq(s, b, a);
    if (a.k === 'opt') throw new Unsupported('=== on an optional external');
    if (a.k === 'nan' || b.k === 'nan') return T.FALSE();
    if (isNumK(a) && isNumK(b)) return T.eq(a.t, b.t);
    if (a.k === 'i32' && b.k === 'i32') {
      if (a.u === b.u) return T.eq(a.t, b.t);
      return T.and(T.eq(a.t, b.t), T.app('bvsge', [a.t, T.bv(0)], 'Bool'));
    }
    if (a.k === 'i32' && isNumK(b) && b.t.op === 'int') return T.eq(a.t, T.bv(Number(b.t.extra)));
    if (b.k === 'i32' && isNumK(a)) return this.strictEq(s, b, a);
    if (a.k === 'ref' && b.k === 'ref') {
      return T.bool(a.id === b.id);
    }
    if (a.k === 'fn' && b.k === 'fn') return T.bool(a.fn === b.fn);
    if (a.k === 'val' || b.k === 'val') {
      const x = this.toVal(s, a), y = this.toVal(s, b);
      const e = T.eq(x, y);
      if (this.spec && !this.opts.specIdentity) return e;
      // identity of data objects is not modelled: equal structure may or may not be the same object
      const maybeObj = (v, t) => (v.k === 'val' ? (v.ty && this.primOnly(v.ty) ? T.FALSE() : T.or(T.is('Obj', t), T.is('Arr', t))) : v.k === 'arr' || v.k === 'obj' || (v.k === 'ref' && ['arr', 'obj'].includes(s.get(v.id)?.kind) && !s.get(v.id).cls && !s.get(v.id).ext) ? T.TRUE() : T.FALSE());
      const o = T.and(maybeObj(a, x), maybeObj(b, y));
      const nn = T.not(T.is('NaN', x));
      if (T.isF(o)) return T.and(e, nn);
      return T.and(e, nn, T.or(T.not(o), T.fresh('ident', 'Bool')));
    }
    if (a.k !== b.k) {
      if ((a.k === 'arr' || a.k === 'obj' || a.k === 'ref') && (b.k === 'arr' || b.k === 'obj' || b.k === 'ref')) {
        if (this.spec) return T.eq(this.toVal(s, a), this.toVal(s, b));
        return T.FALSE();
      }
      return T.FALSE();
    }
    switch (a.k) {
      case 'undef': case 'null': return T.TRUE();
      case 'inf': return T.bool(a.neg === b.neg);
      case 'bool': case 'str': return T.eq(a.t, b.t);
      case 'arr': case 'obj': return this.spec ? T.eq(a.t, b.t) : T.and(T.eq(a.t, b.t), a.t === b.t ? T.TRUE() : T.fresh('ident', 'Bool'));
      case 'class': case 'enumobj': return T.bool(a.decl === b.decl);
    }
    throw new Unsupported(`=== on ${a.k}`);
  }
  primOnly(ty) {
    return ['str', 'num', 'bool', 'lit', 'undef', 'null'].includes(ty.k) || (ty.k === 'union' && ty.types.every((x) => this.primOnly(x)));
  }
  // String(v) as a String term
  toStr(s, v) {
    switch (v.k) {
      case 'str': return v.t;
      case 'undef': return T.str('undefined');
      case 'null': return T.str('null');
      case 'nan': return T.str('NaN');
      case 'inf': return T.str(v.neg ? '-Infinity' : 'Infinity');
      case 'bool': return T.ite(v.t, T.str('true'), T.str('false'));
      case 'int': case 'num': { const r = T.toReal(v.t); if (r.op === 'real') return T.str(String(Number(r.extra))); return T.uf('num2str', [r], 'String'); }
      case 'opt': case 'ref': case 'fn': case 'class': return T.uf('val2str', [v.k === 'opt' ? T.V.Undef() : this.toVal(s, v)], 'String');
      default: {
        const t = this.toVal(s, v);
        if (t.op === 'ite') return T.ite(t.args[0], this.toStr(s, this.fromVal(t.args[1])), this.toStr(s, this.fromVal(t.args[2])));
        return T.ite(T.is('Str', t), T.un('Str', t), T.ite(T.is('Undef', t), T.str('undefined'), T.ite(T.is('Null', t), T.str('null'), T.ite(T.is('VBool', t), T.ite(T.un('VBool', t), T.str('true'), T.str('false')), T.ite(T.is('Num', t), T.uf('num2str', [T.un('Num', t)], 'String'), T.ite(T.is('Obj', t), T.str('[object Object]'), T.uf('val2str', [t], 'String')))))));
      }
    }
  }
  typeofTerm(s, v) {
    switch (v.k) {
      case 'undef': return T.str('undefined');
      case 'null': case 'arr': case 'obj': return T.str('object');
      case 'bool': return T.str('boolean');
      case 'int': case 'num': case 'nan': case 'inf': case 'i32': return T.str('number');
      case 'str': return T.str('string');
      case 'fn': case 'class': return T.str('function');
      case 'opt': return T.ite(v.c, T.str(v.some.k === 'fn' ? 'function' : 'object'), T.str(v.none.k === 'null' ? 'object' : 'undefined'));
      case 'ref': return T.str(s.get(v.id).ext === 'fn' ? 'function' : 'object');
      case 'val': {
        const t = v.t;
        return T.ite(T.is('Str', t), T.str('string'), T.ite(T.is('Undef', t), T.str('undefined'), T.ite(T.is('VBool', t), T.str('boolean'), T.ite(T.or(T.is('Num', t), T.is('NaN', t), T.is('PInf', t), T.is('NInf', t), T.is('I32', t)), T.str('number'), T.ite(T.is('Fn', t), T.str('function'), T.str('object'))))));
      }
      default: return T.str('object');
    }
  }

  // put a chunk of the pre-state, and the chunks it refers to, into a state that has not touched it yet
  bring(s, id) {
    const c = this.initHeap.get(id);
    let r = s.set(id, c);
    if (c && c.over) for (const v of c.over.values()) if (v && v.k === 'ref' && !r.get(v.id) && this.initHeap.has(v.id)) r = this.bring(r, v.id);
    return r;
  }
  // ---------------------------------------------------------------- merging of pure outcomes
  heapPure(base, s) {
    for (const [id, c] of base.heap) {
      const d = s.heap.get(id);
      if (d === c) continue;
      if (!this.chunkSame(id, c, d)) return false;
    }
    return true;
  }
  chunkSame(id, c, d) {
    if (c === d) return true;
    if (!d || c.kind !== d.kind || c.kind !== 'obj') return false;
    if (c.dict !== d.dict) return false;
    for (const [k, v] of d.over) {
      const o = c.over.get(k);
      if (o === v) continue;
      if (o === undefined && v !== null && this.lazy.get(`${id}.${k}`) === v) continue; // lazy initialisation only
      return false;
    }
    for (const k of c.over.keys()) if (!d.over.has(k)) return false;
    return true;
  }
  // outs: outcomes of a pure computation started in `base`, all 'norm'. Returns [state, V] or null
  mergeOutcomes(base, outs) {
    if (outs.length === 1) return [outs[0].s, outs[0].v];
    if (outs.length === 0) return null;
    for (const o of outs) if (o.c !== 'norm' || !this.heapPure(base, o.s)) return null;
    const prim = outs.every((o) => ['bool', 'undef', 'null', 'str', 'int', 'num', 'val', 'nan', 'obj', 'arr', 'inf'].includes(o.v.k));
    if (!prim && !this.spec) {
      // identical references are fine
      const k0 = outs[0].v;
      if (!outs.every((o) => o.v.k === k0.k && (o.v.k === 'ref' ? o.v.id === k0.id : o.v.k === 'fn' ? o.v.fn === k0.fn : o.v.k === 'arr' || o.v.k === 'obj'))) return null;
    }
    // what the results refer to must be in the same state on all paths
    if (outs.some((o) => ['ref', 'fn', 'prom', 'method', 'iter', 'opt'].includes(o.v.k))) {
      const ids = new Set();
      for (const o of outs) this.reachable(o.s, o.v, ids);
      for (const id of ids) { const cs = new Set(outs.map((o) => o.s.heap.get(id) ?? this.initHeap.get(id)).filter(Boolean)); if (cs.size > 1 && ![...cs].every((c) => this.chunkSame(id, [...cs][0], c))) return null; }
    }
    let s = new State(new Map(base.heap), base.pc);
    for (const o of outs) for (const [id, c] of o.s.heap) if (!s.heap.has(id) && (this.initHeap.has(id) || o.v.k === 'ref' || c.kind !== 'scope')) s.heap.set(id, c);
    for (const o of outs) for (const [id, c] of o.s.heap) { const b = base.heap.get(id); if (b && b !== c && c.over && c.over.size > (s.heap.get(id).over?.size ?? 0)) s.heap.set(id, c); }
    let v = null;
    const conds = [];
    for (const o of outs) {
      const suf = o.s.since(base.pc);
      const br = [];
      for (const p of suf) {
        if (p.kind === 'b') br.push(p.t);
        else { const f = T.implies(T.and(br), p.t); s = s.assume(f, 'f'); }
      }
      conds.push(T.and(br));
    }
    for (let i = outs.length - 1; i >= 0; i--) v = v === null ? outs[i].v : this.iteV(outs[i].s, conds[i], outs[i].v, outs[i + 1].s, v);
    return v ? [s, v] : null;
  }
  // ids of everything on the heap that a value refers to
  reachable(s, v, ids) {
    const chunk = (id) => {
      if (!id || ids.has(id)) return;
      ids.add(id);
      const c = s.heap.get(id) ?? this.initHeap.get(id);
      if (!c) return;
      if (c.over) for (const w of c.over.values()) if (w) go(w);
      if (c.els) c.els.forEach(go);
      if (c.kind === 'scope' && !c.module) { for (const w of c.vars.values()) if (w) go(w); chunk(c.parent); }
    };
    const go = (w) => {
      if (!w || typeof w !== 'object') return;
      if (w.k === 'ref') chunk(w.id);
      else if (w.k === 'fn' && w.fn) { for (let f = w.fn; f; f = f.bound) { if (f.scope) chunk(f.scope); if (f.thisV) go(f.thisV); (f.args || []).forEach(go); } }
      else if (w.k === 'prom') go(w.v);
      else if (w.k === 'method') go(w.recv);
      else if (w.els) w.els.forEach(go);
    };
    go(v);
  }
  iteV(s1, c, a, s2, b) {
    if (a === b) return a;
    if (T.isT(c)) return a;
    if (T.isF(c)) return b;
    if (a.k === 'bool' && b.k === 'bool') return B(T.ite(c, a.t, b.t));
    if (a.k === 'str' && b.k === 'str') return S(T.ite(c, a.t, b.t));
    if (isNumK(a) && isNumK(b)) return a.k === 'int' && b.k === 'int' ? I(T.ite(c, a.t, b.t)) : R(T.ite(c, T.toReal(a.t), T.toReal(b.t)));
    if (a.k === 'i32' && b.k === 'i32' && a.u === b.u) return W(T.ite(c, a.t, b.t), a.u);
    if (a.k === 'arr' && b.k === 'arr') return ARR(T.ite(c, a.t, b.t), a.ty);
    if (a.k === 'obj' && b.k === 'obj') return OBJ(T.ite(c, a.t, b.t), a.ty);
    if (a.k === 'ref' && b.k === 'ref' && a.id === b.id) return a;
    if (a.k === 'fn' && b.k === 'fn' && a.fn === b.fn) return a;
    if (a.k === b.k && ['undef', 'null', 'nan'].includes(a.k)) return a;
    let ty = undefined;
    const tyOf = (v) => (v.k === 'val' ? v.ty : ['undef', 'null', 'bool', 'str'].includes(v.k) ? { k: v.k } : v.k === 'int' ? { k: 'num' } : v.k === 'obj' || v.k === 'arr' ? v.ty : undefined);
    const ta = tyOf(a), tb = tyOf(b);
    if (ta && tb && ta.k !== 'any' && tb.k !== 'any') ty = unionType([ta, tb]);
    return this.fromVal(T.ite(c, this.toVal(s1, a), this.toVal(s2, b)), ty);
  }
  // try to merge the norm outcomes; leaves others alone
  tryMerge(base, outs) {
    const ns = outs.filter((o) => o.c === 'norm');
    if (ns.length < 2 || ns.some((o) => o.v && o.v.k === 'method')) return outs;
    const rest = outs.filter((o) => o.c !== 'norm');
    const m = this.mergeOutcomes(base, ns);
    if (!m) return outs;
    let [s, v] = m;
    if (rest.length) {
      // exclude the paths that left otherwise
      const c = T.or(ns.map((o) => T.and(o.s.since(base.pc).filter((p) => p.kind === 'b').map((p) => p.t))));
      s = s.assume(c, 'b');
    }
    return [norm(s, v), ...rest];
  }

  // ---------------------------------------------------------------- scopes
  newScope(s, parent) {
    const id = newId();
    return [s.set(id, { kind: 'scope', vars: new Map(), parent }), id];
  }
  declare(s, scope, name, v) {
    const c = s.get(scope);
    const vars = new Map(c.vars);
    vars.set(name, v);
    return s.set(scope, { ...c, vars });
  }
  lookupScope(s, scope, name) {
    for (let id = scope; id; ) {
      const c = s.get(id);
      if (!c) return null;
      if (c.vars.has(name)) return [id, c];
      if (c.module) return [id, c];
      id = c.parent;
    }
    return null;
  }
  moduleScope(s, m) {
    let id = this.moduleScopes.get(m.path);
    if (!id) { id = newId(); this.moduleScopes.set(m.path, id); this.initHeap.set(id, { kind: 'scope', vars: new Map(), parent: null, module: m }); }
    if (!s.get(id)) s = s.set(id, this.initHeap.get(id));
    return [s, id];
  }
  // value of a module-level name
  readModuleName(s, m, name, node) {
    const ovk = `${m.rel}#${name}`;
    const ov = this.overrides[ovk] ?? this.overrides[name];
    if (ov) return [norm(s, { k: 'fn', fn: this.overrideFn(name, ov) })];
    const d = m.decls.get(name);
    if (!d) {
      if (m.imports.has(name)) {
        const r = lookupImport(m, name, new Set());
        if (r && r.decl) return this.readModuleName(s, r.module, r.name, node);
        if (r && r.namespace) return [norm(s, { k: 'ns', m: r.namespace })];
        return this.readExternal(s, m.imports.get(name).from, m.imports.get(name).name, node);
      }
      return null;
    }
    const [s1, sid] = this.moduleScope(s, m);
    const sc = s1.get(sid);
    if (sc.vars.has(name)) return [norm(s1, sc.vars.get(name))];
    switch (d.kind) {
      case 'fn': { const f = this.closure(d.node, sid, null, m); return [norm(s1, f)]; }
      case 'class': return [norm(s1, { k: 'class', decl: d.node, m })];
      case 'enum': return [norm(s1, { k: 'enumobj', decl: d.node, m })];
      case 'var': {
        let init = d.node.initializer;
        let e = init;
        while (e && (ts.isAsExpression(e) || ts.isParenthesizedExpression(e) || ts.isTypeAssertionExpression?.(e))) e = e.expression;
        if (d.isConst && e && (ts.isArrowFunction(e) || ts.isFunctionExpression(e))) return [norm(s1, this.closure(e, sid, null, m))];
        const mut = !d.isConst || !this.isConstData(e, m, name);
        const stateOv = this.opts.moduleState?.[name];
        if (stateOv) {
          const [s2, v] = stateOv(this, s1, d.node.type ? resolveType(d.node.type, m) : anyType);
          return [norm(this.lazyModuleVar(s2, sid, name, v), v)];
        }
        if (mut) {
          let ty = d.node.type ? resolveType(d.node.type, m) : this.inferInitType(e, m);
          if (!ty) throw new Unsupported(`module variable ${name} of unknown type`, d.node);
          let [s2, v] = this.symbolic(s1, `${name}`, ty);
          if (v.k === 'ref' && e && ts.isObjectLiteralExpression(e)) s2 = s2.set(v.id, { ...s2.get(v.id), literal: { node: e, scope: sid, m } }), this.initHeap.set(v.id, s2.get(v.id));
          return [norm(this.lazyModuleVar(s2, sid, name, v), v)];
        }
        const outs = this.evalE(init, s1, sid);
        return outs.map((o) => {
          if (o.c !== 'norm') return o;
          const prim = !['ref'].includes(o.v.k);
          return prim ? norm(this.declare(o.s, sid, name, o.v), o.v) : norm(this.declare(o.s, sid, name, o.v), o.v);
        });
      }
      default: throw new Unsupported(`module-level destructuring of ${name}`, d.node);
    }
  }
  lazyModuleVar(s, sid, name, v) {
    const c = this.initHeap.get(sid);
    const vars = new Map(c.vars);
    vars.set(name, v);
    this.initHeap.set(sid, { ...c, vars });
    return this.declare(s, sid, name, v);
  }
  inferInitType(e, m) {
    if (!e) return null;
    if (ts.isNewExpression(e)) {
      const n = e.expression.getText();
      const targs = (e.typeArguments || []).map((a) => () => resolveType(a, m));
      if (n === 'Map') return { k: 'map', key: targs[0], val: targs[1] };
      if (n === 'Set') return { k: 'set', el: targs[0] };
      const d = m.decls.get(n);
      if (d?.kind === 'class') return { k: 'cls', name: n, decl: d.node, m };
      const im = m.imports.has(n) && lookupImport(m, n, new Set());
      if (im && im.decl?.kind === 'class') return { k: 'cls', name: n, decl: im.decl.node, m: im.module };
      return { k: 'ext', name: n };
    }
    if (ts.isStringLiteral(e)) return { k: 'str' };
    if (ts.isNumericLiteral(e)) return { k: 'num' };
    if (e.kind === SK.TrueKeyword || e.kind === SK.FalseKeyword) return { k: 'bool' };
    if (ts.isArrayLiteralExpression(e)) return { k: 'arr', el: () => anyType };
    if (ts.isObjectLiteralExpression(e)) return { k: 'rec', val: () => anyType };
    if (e.kind === SK.NullKeyword) return { k: 'null' };
    return null;
  }
  // module-level const that holds data nobody mutates
  isConstData(e, m, name) {
    if (!e) return false;
    const lit = (x) => {
      while (ts.isAsExpression(x) || ts.isParenthesizedExpression(x)) x = x.expression;
      if (ts.isStringLiteralLike(x) || ts.isNumericLiteral(x) || ts.isRegularExpressionLiteral(x) || [SK.TrueKeyword, SK.FalseKeyword, SK.NullKeyword].includes(x.kind)) return true;
      if (ts.isPrefixUnaryExpression(x)) return lit(x.operand);
      if (ts.isBinaryExpression(x)) return lit(x.left) && lit(x.right);
      if (ts.isTemplateExpression(x)) return true;
      if (ts.isArrayLiteralExpression(x)) return x.elements.every(lit);
      if (ts.isObjectLiteralExpression(x)) return x.properties.every((p) => (ts.isPropertyAssignment(p) && lit(p.initializer)) || ts.isShorthandPropertyAssignment(p));
      if (ts.isIdentifier(x) || ts.isPropertyAccessExpression(x)) return true;
      if (ts.isArrowFunction(x) || ts.isFunctionExpression(x)) return true;
      if (ts.isNewExpression(x) && x.expression.getText() === 'Set' && x.arguments?.length === 1 && lit(x.arguments[0])) return true;
      if (ts.isNewExpression(x) && x.expression.getText() === 'RegExp') return true;
      return false;
    };
    if (!lit(e)) return false;
    const re = new RegExp(`\\b${name.replace(/\$/g, '\\$')}\\s*(\\.[\\w$]+|\\[[^\\]]*\\])+\\s*(=[^=]|\\+=|\\+\\+)|delete\\s+${name.replace(/\$/g, '\\$')}\\b|\\b${name.replace(/\$/g, '\\$')}\\.(push|set|add|delete|clear|splice|pop|shift|unshift)\\(`);
    return !re.test(m.sf.text);
  }
  overrideFn(name, ov) {
    const key = 'override:' + name;
    if (!this.lazy.has(key)) this.lazy.set(key, { builtin: ov, name });
    return this.lazy.get(key);
  }
  readExternal(s, from, name, node) {
    const h = this.externals[name] ?? this.externals[`${from}#${name}`];
    if (typeof h === 'string') return [norm(s, S(h))]; // a constant of a package outside the repository
    if (h) return [norm(s, typeof h === 'function' ? { k: 'fn', fn: this.overrideFn('ext:' + name, h) } : h)];
    return [norm(s, { k: 'extname', from, name })];
  }
  closure(node, scope, thisV, m, cls) {
    const key = `clo:${node.pos}:${m.path}:${scope}:${thisV ? (thisV.k === 'ref' ? thisV.id : thisV.k === 'obj' ? 'o' + thisV.t.id : 'x') : '-'}`;
    if (this.lazy.has(key)) return this.lazy.get(key);
    const f = { k: 'fn', fn: { node, scope, thisV, m, cls, name: node.name ? node.name.getText?.() ?? '' : '' } };
    this.lazy.set(key, f);
    return f;
  }

  // ---------------------------------------------------------------- helpers over outcomes
  then(outs, f) {
    const r = [];
    for (const o of outs) {
      if (o.c === 'norm') { for (const x of f(o.s, o.v)) r.push(x); } else r.push(o);
    }
    if (r.length > this.pathBudget) throw new Unsupported('path budget exceeded');
    return r;
  }
  list(exprs, s, scope) { // evaluate expressions in order -> outcomes with v = array of V
    let outs = [norm(s, [])];
    for (const e of exprs) {
      outs = this.then(outs, (s1, acc) => {
        if (ts.isSpreadElement(e)) return this.then(this.evalE(e.expression, s1, scope), (s2, v) => this.spreadEls(s2, v, e).map((o) => (o.c === 'norm' ? norm(o.s, [...acc, ...o.v]) : o)));
        return this.then(this.evalE(e, s1, scope), (s2, v) => [norm(s2, [...acc, v])]);
      });
    }
    return outs;
  }
  // elements of an iterable as a list of V or {spread: Seq}
  spreadEls(s, v, node) {
    return this.then(this.toSeq(s, v, node), (s2, q) => {
      if (q.els) return [norm(s2, q.els)];
      const es = T.seqElems(q.t);
      if (es) return [norm(s2, es.map((t) => this.fromVal(t, q.elTy)))];
      return [norm(s2, [{ k: 'spread', t: q.t, ty: q.elTy }])];
    });
  }
  // view an iterable as a sequence: v = {t: Seq term, elTy, els?}
  toSeq(s, v, node) {
    switch (v.k) {
      case 'arr': return [norm(s, { t: v.t, elTy: v.ty ? elemType(v.ty) : undefined })];
      case 'ref': {
        const c = s.get(v.id);
        if (c.kind === 'arr') return [norm(s, c.els ? { els: c.els, get t() { throw new Unsupported('seq of els'); } } : { t: c.t, elTy: c.ty ? elemType(c.ty) : undefined })];
        if (c.cls?.name?.text === 'URLSearchParams' && c.m?.path.includes('/tsv/platform/')) return this.then(this.readProp(s, v, 'list', node), (s2, l) => this.toSeq(s2, l, node));
        if (c.kind === 'set') return [norm(s, { t: c.keys, elTy: c.ty?.el ? c.ty.el() : undefined })];
        if (c.kind === 'map') {
          if (!this.opts.mapShape) return [norm(s, { t: this.mapEntries(c), elTy: undefined, mapOf: v.id })];
          // the entries of a map are [key, value] pairs of its keys
          const [s1, ks] = this.mapKeySeq(s, c.t), t = this.mapEntries(c), j = T.fresh('j', 'Int'), key = T.nth(ks, j);
          const s2 = s1.assume(T.eq(T.len(t), T.len(ks))).assume(this.quant(j, T.implies(T.and(T.cmp('<=', T.int(0), j), T.cmp('<', j, T.len(ks))), T.eq(T.nth(t, j), T.ctor('Arr', T.concat(T.unit(key), T.unit(T.rd(T.select(c.t, key)))))))));
          const kt = c.ty?.key ? c.ty.key() : anyType, vt = c.ty?.val ? c.ty.val() : anyType;
          return [norm(s2, { t, elTy: { k: 'arr', el: () => anyType, tuple: [() => kt, () => vt] }, mapOf: v.id })];
        }
        break;
      }
      case 'val': {
        return this.cases(s, v, ['Arr']).flatMap(([s2, w]) => (w.k === 'arr' ? this.toSeq(s2, w, node) : [throwO(s2, S('TypeError: not iterable'))]));
      }
      case 'opt': return this.then(this.resolveOpt(s, v), (s2, w) => this.toSeq(s2, w, node));
      case 'undef': case 'null': return [throwO(s, S('TypeError: not iterable'))];
    }
    throw new Unsupported(`iteration over ${v.k}`, node);
  }
  mapEntries(c) { return T.uf('mapEntries', [c.t], 'Seq'); }
}
