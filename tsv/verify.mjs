// Verifies one contract against the current source: generates the obligations and hands them to the back ends.
import * as T from './terms.mjs';
import { ts, loadModule, parseModule, findFunction, resolveType, anyType, unionType, isStatic, isAsync, FrontError, dataTypes, propType } from './front.mjs';
import { Exec, Unsupported, U, N, B, I, R, S, VAL, REF, norm, State } from './exec.mjs';
import './expr.mjs';
import './stmt.mjs';
import './fold.mjs';
import './calls.mjs';
import './builtins.mjs';
import { feasible, discharge, smtText, stopSync } from './solver.mjs';

const splitTarget = (t) => { const [file, key] = t.split('#'); return { file, key }; };
export function locate(target) {
  const { file, key } = splitTarget(target);
  const m = loadModule(file);
  const f = findFunction(m, key);
  if (f) return f;
  const d = m.decls.get(key);
  if (d && d.kind === 'class') return { node: d.node, cls: d.node, module: m, isClass: true };
  throw new FrontError(`function under contract not found: ${target}`);
}
let typeN = 0;
export function parseType(text, m) {
  const sf = ts.createSourceFile(`t${typeN++}.ts`, `type X = ${text};`, ts.ScriptTarget.ES2020, true, ts.ScriptKind.TS);
  return resolveType(sf.statements[0].type, m);
}
const fnSpan = (n) => { const sf = n.getSourceFile(); const a = sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, b = sf.getLineAndCharacterOfPosition(n.end).line + 1; return `${sf.fileName.replace(/^.*\/packages\//, 'packages/')}:${a}-${b}`; };
const fnName = (n) => {
  const nm = n.name?.getText?.() ?? (ts.isConstructorDeclaration(n) ? 'constructor' : n.parent?.name?.getText?.() ?? 'anonymous');
  let p = n.parent; while (p && !ts.isClassDeclaration(p)) p = p.parent;
  return (p ? p.name.text + '.' : '') + nm;
};

// how the symbolic inputs of a contract are made: 32-bit words, fields that may be unset, and lists or records that
// belong to the object under contract alone (so that it may write to them)
function inputsOf(c, mod) {
  if (!c.words && !c.optional && !c.owned && !c.fieldTypes) return c.inputs;
  const m = { ...(typeof c.inputs === 'object' ? c.inputs : {}) };
  for (const w of c.optional || []) m[w] = (x, st, nm, ty) => x.symbolic(st, nm, unionType([ty, { k: 'undef' }]), { [nm]: () => null });
  // the part of a platform object that matters, e.g. the address of the page
  for (const [w, text] of Object.entries(c.fieldTypes || {})) m[w] = (x, st, nm) => x.symbolic(st, nm, parseType(text, mod), { [nm]: () => null });
  for (const w of c.owned || []) m[w] = (x, st, nm, ty) => {
    if (ty.k === 'arr') return x.allocInit(st, { kind: 'arr', t: T.cst(nm, 'Seq'), ty, path: nm });
    const over = new Map();
    for (const w2 of c.owned) if (w2.startsWith(w + '.') && !w2.slice(w.length + 1).includes('.')) {
      const k = w2.slice(w.length + 1), t2 = propType(ty, k).type;
      let v; [st, v] = m[w2](x, st, w2, t2); over.set(k, v);
    }
    return x.allocInit(st, { kind: 'obj', dict: T.cst(nm, 'Dict'), over, ty, path: nm });
  };
  for (const w of c.words || []) m[w] = (x, st, nm) => [st, { k: 'i32', t: T.cst(nm, 'BV32'), u: false }];
  return m;
}
// c: contract; all: contracts by target (for call-site use); returns {name, target, obligations, error, functions}
export function generate(c, all, opts = {}) {
  const res = { name: c.name || c.target, target: c.target, obligations: [], error: null, functions: new Set(), assumptions: new Set(c.assumptions || []), callContracts: new Set() };
  stopSync();
  try {
    const loc = c.target ? locate(c.target) : null;
    const m = loc ? loc.module : loadModule(c.scope);
    const callMap = new Map();
    for (const k of c.uses || []) {
      const cc = typeof k === 'string' ? all.get(k) : k;
      if (!cc) throw new FrontError(`contract ${k} not found`);
      let l;
      try { l = locate(cc.target); } catch (e) { res.assumptions.add(`contract ${cc.name || cc.target} has no target in the source; calls are inlined`); continue; } // e.g. a helper renamed
      callMap.set(l.node, cc);
    }
    const ex = new Exec({
      ...c,
      specModule: loadModule(c.file), targetModule: m,
      contractByName: (n) => { const x = all.get(n); if (!x || !(c.uses || []).includes(n)) throw new Error(`lemma ${n} is not listed in uses`); res.callContracts.add(n); return x; },
      contractParams: (x) => x.params ?? locate(x.target).node.parameters.map((p) => p.name.text),
      contractFor: (n) => { if (loc && n === loc.node && !c.recursive) return null; const r = callMap.get(n) || null; if (r) res.callContracts.add(r.name || r.target); return r; },
      overrides: c.overrides, externals: c.externals, loops: c.loops || [], inputs: inputsOf(c, m), moduleState: c.moduleState,
    });
    ex.opts.specModule.spec = true;
    for (const k of c.valueClasses || []) { const l = locate(k); ex.valueClassType(l.cls, l.module); }
    dataTypes.clear(); for (const k of c.dataTypes || []) dataTypes.add(k);
    let s = ex.initialState();
    // ---- symbolic inputs
    let self = U;
    const argVs = [];
    const map = new Map();
    let prms = [];
    if (loc && !c.act) prms = (loc.isClass ? ex.ctorOf(loc.node)?.parameters || [] : loc.node ? loc.node.parameters : []);
    if (loc && loc.cls && !loc.isStatic && !loc.isClass) {
      const key = splitTarget(c.target).key.split('.')[1];
      if (key !== 'constructor') [s, self] = ex.symbolic(s, 'self', { k: 'cls', name: loc.cls.name.text, decl: loc.cls, m });
    } else if (loc && loc.isStatic) self = { k: 'class', decl: loc.cls, m };
    if (c.self) [s, self] = ex.symbolic(s, 'self', typeof c.self === 'string' ? parseType(c.self, m) : c.self);
    for (const p of prms) {
      const nm = ts.isIdentifier(p.name) ? p.name.text : `arg${argVs.length}`;
      let ty = p.type ? resolveType(p.type, m) : p.initializer ? ex.inferInitType(p.initializer, m) ?? anyType : anyType;
      const gen = c.generics;
      if (c.argTypes?.[nm] || c.argTypes?.[argVs.length]) ty = parseType(c.argTypes[nm] ?? c.argTypes[argVs.length], m);
      if ((p.questionToken || p.initializer) && ty.k !== 'any') ty = unionType([ty, { k: 'undef' }]);
      let v;
      [s, v] = ex.symbolic(s, nm, ty, ex.opts.inputs);
      map.set(nm, v); map.set(String(argVs.length), v);
      if (p.dotDotDotToken) { const [o] = ex.toSeq(s, v, p); s = o.s; argVs.push({ k: 'spread', t: o.v.t, ty: o.v.elTy }); } else argVs.push(v);
    }
    for (const [nm, ty] of Object.entries(c.given || {})) {
      let v;
      [s, v] = ex.symbolic(s, nm, typeof ty === 'string' ? parseType(ty, m) : ty, ex.opts.inputs);
      map.set(nm, v);
    }
    for (const [id, ch] of ex.initHeap) if (!s.get(id)) s = s.set(id, ch);
    const args = { k: 'spec', kind: 'args', map };
    let env = U;
    if (c.env) [s, env] = ex.setupEnv(s, c.env);
    ex.ctxV = { self, args, env };
    // ---- precondition
    if (c.requires) {
      for (const [, st, t] of ex.evalSpecFn(c.requires, { self, args, env }, s)) s = ex.adopt(s, st).assume(t);
      s = new State(new Map(ex.lastSpecState.heap), s.pc);
    }
    // unfoldings of definitions used in the precondition: hold by definition, not checked at calls
    if (c.unfold) {
      for (const [, st, t] of ex.evalSpecFn(c.unfold, { self, args, env }, s)) s = ex.adopt(s, st).assume(t);
      s = new State(new Map(ex.lastSpecState.heap), s.pc);
    }
    if (c.assume) for (const f of [].concat(c.assume)) s = f(ex, s, { self, args });
    if (feasible(s.terms(), 3000000, 5000, 3000) === 'unsat') throw new Error('precondition is unsatisfiable: contract is vacuous');
    let old = U;
    if (c.snapshot) {
      const v = ex.evalSpecValue(c.snapshot, { self, args, env }, s);
      s = ex.lastSpecState;
      old = v;
      ex.ctxV = { self, args, env, old };
    }
    // ---- execution
    let outs;
    if (c.act) {
      const { node, m: sm } = ex.specFnOf(c.act);
      const [s1, sid] = ex.moduleScope(s, c.actIn ? loadModule(c.actIn) : sm);
      const [s2, arg] = ex.specArg(s1, { self, args, old, env, trace: REF(ex.traceId) });
      outs = ex.callBody(s2, { node, scope: sid, thisV: null, m: { ...sm, spec: false }, name: 'act' }, null, [arg], node);
      ex.covered.delete(node);
    } else if (loc.isClass || /\.constructor$/.test(c.target)) {
      outs = ex.construct(s, { k: 'class', decl: loc.cls, m }, argVs, loc.cls);
    } else {
      const [s1, sid] = ex.moduleScope(s, m);
      outs = ex.callBody(s1, { node: loc.node, scope: sid, thisV: ts.isArrowFunction(loc.node) ? null : self, m, cls: loc.cls, name: fnName(loc.node) }, self, argVs, loc.node);
      if (ts.isArrowFunction(loc.node) && loc.cls) {
        // arrow field: `this` comes from the enclosing scope
        const rd = ex.readProp(s, self, loc.node.parent.name.getText(), loc.node);
        outs = ex.then(rd, (s2, f) => ex.callFn(s2, f.fn, self, argVs, loc.node));
      }
    }
    if (c.after) {
      // continues after the function has returned, e.g. runs a callback it registered
      const { node, m: sm } = ex.specFnOf(c.after);
      outs = ex.then(outs, (s0, v) => {
        const [s1, sid] = ex.moduleScope(s0, c.actIn ? loadModule(c.actIn) : sm);
        const [s2, arg] = ex.specArg(s1, { self, args, old, env, result: v, trace: REF(ex.traceId) });
        return ex.callBody(s2, { node, scope: sid, thisV: null, m: { ...sm, spec: false }, name: 'after' }, null, [arg], node);
      });
      ex.covered.delete(node);
    }
    // settle promises
    if (!c.keepPromise) outs = outs.map((o) => (o.c === 'norm' && o.v.k === 'prom' && o.v.st !== 'cell' ? (o.v.st === 'ok' ? { ...o, v: o.v.v } : { ...o, c: 'throw', v: o.v.v }) : o));
    if (outs.length === 0) throw new Error('no feasible path: contract is vacuous');
    // ---- postconditions
    let paths = 0;
    for (const o of outs) {
      paths++;
      const trace = REF(ex.traceId);
      const thrown = o.c === 'throw';
      if (thrown && !c.throws) {
        ex.obligations.push({ name: 'does not throw', pc: o.s.terms(), goal: T.FALSE(), at: '' });
        continue;
      }
      const binds = { self, args, old, env, result: thrown ? U : o.v, thrown: B(thrown), error: thrown ? o.v : U, trace };
      for (const l of c.lemmas || []) o.s = ex.lemmaInstance(o.s, l, { self, args, old, result: binds.result }, null);
      if (!c.ensures) continue;
      for (const [nm, st, t] of ex.evalSpecFn(c.ensures, binds, o.s)) ex.obligations.push({ name: nm, pc: st.terms(), goal: t, at: '', path: paths });
    }
    res.paths = paths;
    for (const n of ex.covered) res.functions.add(`${fnName(n)} (${fnSpan(n)})`);
    for (const a of ex.assumptions) res.assumptions.add(a);
    // merge
    const seen = new Set();
    for (const ob of ex.obligations) {
      const asserts = [...ob.pc, T.not(ob.goal)];
      const lem = ex.foldLemmas(asserts);
      const a = [...asserts, ...lem];
      const key = ob.name + '|' + a.map((t) => t.id).join(',');
      if (seen.has(key)) continue;
      seen.add(key);
      res.obligations.push({ contract: res.name, name: ob.name, path: ob.path, at: ob.at, asserts: a, trivial: T.isT(ob.goal) || ob.pc.some((t) => T.isF(t)), goal: ob.goal, pc: ob.pc, lemmas: (as) => ex.foldLemmas(as) });
    }
    if (!res.obligations.length) throw new Error('contract generates no obligation');
  } catch (e) {
    if (opts.debug) console.error(e);
    const msg = e instanceof Unsupported || e instanceof FrontError ? e.message : e instanceof Error ? `${e.message}` : String(e);
    res.error = msg;
    res.stack = e && e.stack;
  }
  return res;
}
export { discharge, smtText };
