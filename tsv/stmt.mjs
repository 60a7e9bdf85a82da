// Statements and loops. Mixed into Exec.prototype.
import * as T from './terms.mjs';
import { ts, elemType, anyType, unionType, resolveType } from './front.mjs';
import { Exec, Unsupported, State, U, N, B, I, R, S, VAL, ARR, OBJ, REF, W, NANV, INF, norm, throwO, newId } from './exec.mjs';
import { feasible } from './solver.mjs';
import { parseTypeText } from './builtins.mjs';
const SK = ts.SyntaxKind;

export const P = {
  execStmts(stmts, s, scope) {
    let s0 = s;
    for (const st of stmts) if (ts.isFunctionDeclaration(st) && st.body) s0 = this.declare(s0, scope, st.name.text, this.closure(st, scope, U, this.moduleOfScope(s0, scope)));
    let outs = [norm(s0, U)];
    for (const st of stmts) {
      const next = [];
      let moved = false;
      for (const o of outs) {
        if (o.c !== 'norm') { next.push(o); continue; }
        moved = true;
        const rs = this.execStmt(st, o.s, scope);
        for (const r of rs) next.push(r);
      }
      if (!moved) return outs;
      outs = next;
      if (outs.length > 2) outs = this.joinSame(s0, outs);
      if (outs.length > this.pathBudget) throw new Unsupported('path budget exceeded', st);
    }
    return outs;
  },
  execStmt(st, s, scope) {
    switch (st.kind) {
      case SK.Block: { const [s2, id] = this.newScope(s, scope); return this.execStmts(st.statements, s2, id); }
      case SK.EmptyStatement: case SK.FunctionDeclaration: case SK.InterfaceDeclaration: case SK.TypeAliasDeclaration: case SK.DebuggerStatement: return [norm(s, U)];
      case SK.ExpressionStatement: return this.then(this.evalE(st.expression, s, scope), (s2) => [norm(s2, U)]);
      case SK.VariableStatement: return this.execVarList(st.declarationList, s, scope);
      case SK.ReturnStatement: {
        if (!st.expression) return [{ s, c: 'return', v: U }];
        return this.evalE(st.expression, s, scope).map((o) => (o.c === 'norm' ? { s: o.s, c: 'return', v: o.v } : o));
      }
      case SK.ThrowStatement: return this.then(this.evalE(st.expression, s, scope), (s2, v) => [throwO(s2, v)]);
      case SK.IfStatement: {
        const outs = [];
        for (const [s2, b] of this.evalCond(st.expression, s, scope)) {
          if (s2.c) { outs.push(s2); continue; }
          if (b) outs.push(...this.execStmt(st.thenStatement, s2, scope));
          else if (st.elseStatement) outs.push(...this.execStmt(st.elseStatement, s2, scope));
          else outs.push(norm(s2, U));
        }
        return this.joinNorm(s, outs);
      }
      case SK.SwitchStatement: return this.execSwitch(st, s, scope);
      case SK.BreakStatement: return [{ s, c: 'break', label: st.label?.text, v: U }];
      case SK.ContinueStatement: return [{ s, c: 'continue', label: st.label?.text, v: U }];
      case SK.TryStatement: return this.execTry(st, s, scope);
      case SK.ForOfStatement: return this.execForOf(st, s, scope);
      case SK.ForInStatement: return this.execForIn(st, s, scope);
      case SK.ForStatement: return this.execFor(st, s, scope);
      case SK.WhileStatement: case SK.DoStatement: return this.execWhile(st, s, scope);
      case SK.LabeledStatement: return this.execStmt(st.statement, s, scope).map((o) => (o.c === 'break' && o.label === st.label.text ? norm(o.s, U) : o));
      case SK.ClassDeclaration: throw new Unsupported('local class', st);
      default: throw new Unsupported(`statement ${SK[st.kind]}`, st);
    }
  },
  execVarList(dl, s, scope) {
    let outs = [norm(s, U)];
    for (const d of dl.declarations) {
      outs = this.then(outs, (s1) => {
        if (d.type && ts.isIdentifier(d.name)) { const md = this.nodeModule(d, s1, scope); if (md) { const ty = resolveType(d.type, md); if (!md.spec && this.plainType(ty)) this.varTypes.set(`${scope}.${d.name.text}`, ty); } }
        if (!d.initializer) { let s2 = s1; if (ts.isIdentifier(d.name)) s2 = this.declare(s2, scope, d.name.text, U); return [norm(s2, U)]; }
        return this.then(this.evalE(d.initializer, s1, scope), (s2, v) => this.bind(d.name, v, s2, scope));
      });
    }
    return outs;
  },
  // bind a pattern
  bind(pat, v, s, scope) {
    if (ts.isIdentifier(pat)) return [norm(this.declare(s, scope, pat.text, v), U)];
    if (ts.isObjectBindingPattern(pat)) {
      return this.then(this.resolveOpt(s, v), (s0, w) => {
        let outs = [norm(s0, U)];
        const used = [];
        for (const el of pat.elements) {
          if (el.dotDotDotToken) {
            outs = this.then(outs, (s1) => this.then(this.evalRest(s1, w, used, el), (s2, r) => this.bind(el.name, r, s2, scope)));
            continue;
          }
          const key = el.propertyName ? (ts.isIdentifier(el.propertyName) || ts.isStringLiteral(el.propertyName) ? el.propertyName.text : null) : el.name.text;
          if (key === null) throw new Unsupported('computed binding', el);
          used.push(key);
          outs = this.then(outs, (s1) => this.then(this.readProp(s1, w, key, el), (s2, x) => this.withDefault(el, x, s2, scope)));
        }
        return outs;
      });
    }
    let outs = [norm(s, U)];
    pat.elements.forEach((el, i) => {
      if (ts.isOmittedExpression(el)) return;
      if (el.dotDotDotToken) { outs = this.then(outs, (s1) => this.then(this.callMethod(s1, v, 'slice', [I(i)], el), (s2, r) => this.bind(el.name, r, s2, scope))); return; }
      outs = this.then(outs, (s1) => this.then(this.readKey(s1, v, I(i), el), (s2, x) => this.withDefault(el, x, s2, scope)));
    });
    return outs;
  },
  withDefault(el, x, s, scope) {
    if (!el.initializer) return this.bind(el.name, x, s, scope);
    return this.then(this.resolveOpt(s, x), (s1, y) => {
      const isU = y.k === 'undef' ? T.TRUE() : y.k === 'val' ? T.is('Undef', y.t) : T.FALSE();
      const outs = [];
      for (const [s2, u] of this.fork(s1, isU)) {
        if (u) outs.push(...this.then(this.evalE(el.initializer, s2, scope), (s3, w) => [norm(s3, w)]));
        else outs.push(norm(s2, y));
      }
      return this.then(this.tryMerge(s1, outs), (s2, w) => this.bind(el.name, w, s2, scope));
    });
  },
  evalRest(s, v, used, node) {
    return this.then(this.spreadInto(s, { dict: T.emptyDict(), over: new Map() }, v, node), (s2, acc) => {
      const over = new Map(acc.over);
      let dict = acc.dict;
      for (const k of used) { over.delete(k); if (dict.op !== 'emptyDict') dict = T.store(dict, T.str(k), T.V.Absent()); }
      const [s3, r] = this.alloc(s2, { kind: 'obj', dict, over });
      return [norm(s3, r)];
    });
  },
  execSwitch(st, s, scope) {
    return this.then(this.evalE(st.expression, s, scope), (s1, v0) => this.then(this.resolveOpt(s1, v0), (s1b, v) => {
      const clauses = st.caseBlock.clauses;
      const [s2, sc] = this.newScope(s1b, scope);
      // groups of clauses that share a body
      const outs = [];
      let rest = [s2];
      const entries = []; // [state, clauseIndex]
      let i = 0;
      while (i < clauses.length) {
        let j = i;
        const group = [];
        for (;;) { group.push(j); if (clauses[j].statements.length > 0 || j === clauses.length - 1) break; j++; }
        i = j + 1;
        if (group.some((g) => ts.isDefaultClause(clauses[g])) && group.length === 1) continue;
        const next = [];
        for (const r of rest) {
          let cur = [r];
          let conds = [];
          let simple = true;
          for (const g of group) {
            if (ts.isDefaultClause(clauses[g])) continue;
            const os = this.evalE(clauses[g].expression, r, sc);
            if (os.length !== 1 || os[0].c !== 'norm') throw new Unsupported('case label', clauses[g]);
            conds.push(this.strictEq(os[0].s, v, os[0].v));
          }
          for (const [s3, yes] of this.fork(r, T.or(conds))) if (yes) entries.push([s3, j]); else next.push(s3);
        }
        rest = next;
      }
      const di = clauses.findIndex((c) => ts.isDefaultClause(c));
      if (di >= 0) for (const r of rest) entries.push([r, di]); else for (const r of rest) outs.push(norm(r, U));
      for (const [es, ci] of entries) {
        let cur = [norm(es, U)];
        for (let k = ci; k < clauses.length; k++) {
          const nx = [];
          for (const o of cur) { if (o.c !== 'norm') nx.push(o); else nx.push(...this.execStmts(clauses[k].statements, o.s, sc)); }
          cur = nx;
          if (!cur.some((o) => o.c === 'norm')) break;
        }
        for (const o of cur) outs.push(o.c === 'break' && !o.label ? norm(o.s, U) : o);
      }
      return this.joinNorm(s1b, outs);
    }));
  },
  execTry(st, s, scope) {
    let outs = this.execStmt(st.tryBlock, s, scope);
    if (st.catchClause) {
      const next = [];
      for (const o of outs) {
        if (o.c !== 'throw') { next.push(o); continue; }
        const [s2, sc] = this.newScope(o.s, scope);
        if (st.catchClause.variableDeclaration) {
          for (const b of this.bind(st.catchClause.variableDeclaration.name, o.v, s2, sc)) next.push(...this.execStmt(st.catchClause.block, b.s, sc));
        } else next.push(...this.execStmt(st.catchClause.block, s2, sc));
      }
      outs = next;
    }
    if (st.finallyBlock) {
      const next = [];
      for (const o of outs) for (const f of this.execStmt(st.finallyBlock, o.s, scope)) next.push(f.c === 'norm' ? { ...o, s: f.s } : f);
      outs = next;
    }
    return this.joinNorm(s, outs);
  },

  // ---------------------------------------------------------------- joining of paths
  joinNorm(base, outs) {
    const ns = outs.filter((o) => o.c === 'norm');
    if (ns.length < 2 || this.opts.noJoin) return outs;
    const rest = outs.filter((o) => o.c !== 'norm');
    const j = this.joinStates(base, ns.map((o) => o.s));
    if (!j) return outs;
    return [...j.map((s) => norm(s, U)), ...rest];
  },
  joinSame(base, outs) {
    return this.joinNorm(base, outs);
  },
  condsOf(base, s) { return T.and(s.since(base.pc).filter((p) => p.kind === 'b').map((p) => p.t)); },
  descends(base, s) { for (let p = s.pc; ; p = p.prev) { if (p === base.pc) return true; if (!p) return false; } },
  // general join of two or more states derived from base; null when impossible
  joinStates(base, states) {
    if (!states.every((x) => this.descends(base, x))) return null;
    // group greedily
    let acc = states.slice();
    let changed = true;
    while (changed && acc.length > 1) {
      changed = false;
      outer: for (let i = 0; i < acc.length; i++) for (let k = i + 1; k < acc.length; k++) {
        const m = this.join2(base, acc[i], acc[k]);
        if (m) { acc[i] = m; acc.splice(k, 1); changed = true; break outer; }
      }
    }
    return acc.length < states.length ? acc : null;
  },
  joinV(c, a, sa, b, sb) {
    if (a === b) return a;
    if (!a || !b) return null;
    const prim = ['bool', 'undef', 'null', 'str', 'int', 'num', 'val', 'nan', 'arr', 'obj', 'inf'];
    if (a.k === 'ref' && b.k === 'ref' && a.id === b.id) return a;
    if (a.k === 'fn' && b.k === 'fn' && a.fn === b.fn) return a;
    if (a.k === 'i32' && b.k === 'i32' && a.u === b.u) return this.iteV(sa, c, a, sb, b);
    if (a.k === 'regex' && b.k === 'regex' && a.t === b.t) return a;
    if (!prim.includes(a.k) || !prim.includes(b.k)) return null;
    if (a.k === b.k && a.t && a.t === b.t && a.t) return a;
    return this.iteV(sa, c, a, sb, b);
  },
  join2(base, s1, s2) {
    const c1 = this.condsOf(base, s1), c2 = this.condsOf(base, s2);
    if (c1 === c2 && !T.isT(c1)) return null;
    const heap = new Map(base.heap);
    const ids = new Set();
    for (const [id, c] of s1.heap) if (base.heap.get(id) !== c) ids.add(id);
    for (const [id, c] of s2.heap) if (base.heap.get(id) !== c) ids.add(id);
    for (const id of ids) {
      const a = s1.heap.get(id), b = s2.heap.get(id);
      if (!a || !b) { heap.set(id, a || b); continue; }
      if (a === b) { heap.set(id, a); continue; }
      if (a.kind !== b.kind) return null;
      if (a.kind === 'scope') {
        const vars = new Map();
        for (const [k, v] of a.vars) {
          if (!b.vars.has(k)) { if (a.module) { vars.set(k, v); continue; } vars.set(k, v); continue; }
          const w = b.vars.get(k);
          const j = this.joinV(c1, v, s1, w, s2);
          if (!j) return null;
          vars.set(k, j);
        }
        for (const [k, w] of b.vars) if (!a.vars.has(k)) vars.set(k, w);
        heap.set(id, { ...a, vars });
      } else if (a.kind === 'obj') {
        if (a.cls !== b.cls || a.ext !== b.ext || a.frozen !== b.frozen) return null;
        const keys = new Set([...a.over.keys(), ...b.over.keys()]);
        let over = new Map();
        // a key that only one side has: join the dictionaries
        if (!a.cls && !a.ext && !a.lazyCls && [...keys].some((k) => (a.over.get(k) == null) !== (b.over.get(k) == null)) && [...a.over.values(), ...b.over.values()].every((v) => v === null || ['bool', 'undef', 'null', 'str', 'int', 'num', 'val', 'nan', 'inf', 'arr', 'obj'].includes(v.k))) {
          heap.set(id, { ...a, over: new Map(), dict: T.ite(c1, this.dictOf(s1, id), this.dictOf(s2, id)) });
          continue;
        }
        for (const k of keys) {
          let v = a.over.get(k), w = b.over.get(k);
          if (v === undefined || w === undefined) {
            const lz = this.lazy.get(`${id}.${k}`);
            if (a.lazyCls && lz) { if (v === undefined) v = lz; if (w === undefined) w = lz; }
            else if (a.cls) return null;
            else { // plain object: read through
              const rd = (d) => { const t = T.select(d, T.str(k)); return t.op === 'Absent' ? null : this.fromVal(T.rd(t)); };
              if (a.dict.op !== 'emptyDict' || b.dict.op !== 'emptyDict') return null;
              if (v === undefined) v = null;
              if (w === undefined) w = null;
            }
          }
          if (v === null && w === null) { over.set(k, null); continue; }
          if (v === null || w === null) return null;
          const j = this.joinV(c1, v, s1, w, s2);
          if (!j) return null;
          over.set(k, j);
        }
        heap.set(id, { ...a, over, dict: T.ite(c1, a.dict, b.dict) });
      } else if (a.kind === 'arr') {
        if (a.frozen !== b.frozen) return null;
        if (a.els && b.els && a.els.length === b.els.length) {
          const els = [];
          for (let i = 0; i < a.els.length; i++) { const j = this.joinV(c1, a.els[i], s1, b.els[i], s2); if (!j) return null; els.push(j); }
          heap.set(id, { ...a, els });
        } else {
          if (id === this.traceId) return null;
          let x, y;
          const plain = (ch) => !ch.els || ch.els.every((v) => v.k !== 'ref' || false);
          if (!plain(a) || !plain(b)) return null;
          try { x = this.seqOf(s1, id); y = this.seqOf(s2, id); } catch { return null; }
          heap.set(id, { kind: 'arr', t: T.ite(c1, x, y), ty: a.ty ?? b.ty, frozen: a.frozen });
        }
      } else if (a.kind === 'map' || a.kind === 'set') {
        heap.set(id, { ...a, t: T.ite(c1, a.t, b.t), keys: a.keys && b.keys ? T.ite(c1, a.keys, b.keys) : undefined });
      } else return null;
    }
    let s = new State(heap, base.pc);
    const addFacts = (st) => {
      const br = [];
      for (const p of st.since(base.pc)) {
        if (p.kind === 'b') br.push(p.t);
        else s = s.assume(T.implies(T.and(br), p.t), 'f');
      }
    };
    addFacts(s1); addFacts(s2);
    return s.assume(T.or(c1, c2), 'b');
  },

  // ---------------------------------------------------------------- loops
  execForOf(st, s, scope) {
    (this.loopScopes ??= new Map()).set(st, scope);
    return this.then(this.evalE(st.expression, s, scope), (s1, v) => this.then(this.toSeq(s1, v, st.expression), (s2, q) => {
      const decl = st.initializer;
      const body = (s3, el) => {
        const [s4, sc] = this.newScope(s3, scope);
        const bound = ts.isVariableDeclarationList(decl) ? this.bind(decl.declarations[0].name, el, s4, sc) : this.assign(decl, s4, sc, el);
        return this.then(bound, (s5) => this.execStmt(st.statement, s5, sc));
      };
      return this.iterate(s2, q, body, st);
    }));
  },
  execForIn(st, s, scope) {
    (this.loopScopes ??= new Map()).set(st, scope);
    return this.then(this.evalE(st.expression, s, scope), (s1, v) => this.then(this.keysOf(s1, v, st), (s2, arrV) => this.then(this.toSeq(s2, arrV, st), (s3, q) => {
      const body = (s4, el) => {
        const [s5, sc] = this.newScope(s4, scope);
        return this.then(this.bind(st.initializer.declarations[0].name, el, s5, sc), (s6) => this.execStmt(st.statement, s6, sc));
      };
      return this.iterate(s3, q, body, st);
    })));
  },
  // normalise body outcomes of one iteration: 'norm' = continue
  bodyOuts(outs) {
    return outs.map((o) => (o.c === 'continue' && !o.label ? norm(o.s, U) : o));
  },
  finishLoop(outs) { return outs.map((o) => (o.c === 'break' && !o.label ? norm(o.s, U) : o.c === 'loopdone' ? norm(o.s, U) : o)); },
  // q: {t, elTy} or {els}; body(state, elementV, indexV) -> outcomes
  iterate(s, q, body, node) {
    const els = q.els ?? (T.seqElems(q.t) || []).map((t) => this.fromVal(t, q.elTy));
    if (q.els || T.seqElems(q.t)) {
      let outs = [norm(s, U)];
      const done = [];
      els.forEach((el, i) => {
        const next = [];
        for (const o of outs) for (const r of this.bodyOuts(body(o.s, el, I(i)))) (r.c === 'norm' ? next : done).push(r);
        outs = this.joinNorm(s, next);
        if (outs.length + done.length > this.pathBudget) throw new Unsupported('path budget in unrolled loop', node);
      });
      return this.joinNorm(s, this.finishLoop([...outs, ...done]));
    }
    // concatenations: iterate over the parts in order when every part is handled
    if (q.t.op === 'ite' && this.spec === 0) {
      const outs = [];
      for (const [s2, b] of this.fork(s, q.t.args[0])) outs.push(...this.iterate(s2, { ...q, t: q.t.args[b ? 1 : 2] }, body, node));
      return outs;
    }
    // a sequence built by map or filter: iterate over its source
    const flat = this.opts.overSource && q.t.op === 'uf' && this.flats?.get(q.t), shape = flat && this.flatShape(flat.E);
    if (shape && shape.v && (this.opts.overSource !== 'maps' || T.isT(shape.c))) {
      const at = (x, k) => T.subst(x, new Map([[flat.j.id, k]]));
      const total = T.isT(shape.c);
      let src = q.t;
      return this.loopSummary(s, flat.n, null, (s1, _, j) => {
        const out = [];
        const outs = total ? [[s1, true]] : this.fork(s1, at(shape.c, j.t));
        for (const [s2, keep] of outs) {
          if (!keep) { out.push(norm(s2, U)); continue; }
          const [s3, el] = this.typedEl(s2, at(shape.v, j.t), q.elTy || anyType);
          out.push(...body(s3, el, total ? j : I(T.uf('pos_' + src.extra, [...src.args, j.t], 'Int'))));
        }
        return out;
      }, node, q.t);
    }
    const n = T.len(q.t);
    const S_ = q.t;
    return this.loopSummary(s, n, (s2, j) => { const [s3, v] = this.typedEl(s2, T.nth(S_, j), q.elTy || anyType); return [s3, v]; }, body, node, S_);
  },
  // places modified between base and s (old chunks only)
  modified(base, s) {
    const mods = [];
    for (const [id, c] of base.heap) {
      const d = s.heap.get(id);
      if (d === c || !d) continue;
      if (c.kind === 'scope') {
        for (const [k, v] of d.vars) if (c.vars.get(k) !== v && !(c.vars.get(k) === undefined && c.module)) mods.push({ id, name: k, kind: 'var' });
      } else if (this.chunkSame(id, c, d)) continue;
      else if (c.kind === 'obj' && d.kind === 'obj' && c.dict === d.dict && c.cls) {
        for (const [k, v] of d.over) if (c.over.get(k) !== v && !(c.over.get(k) === undefined && this.lazy.get(`${id}.${k}`) === v)) mods.push({ id, name: k, kind: 'field' });
      } else mods.push({ id, kind: 'chunk' });
    }
    return mods;
  },
  modKey: (m) => `${m.id}.${m.name ?? ''}`,
  plainType(ty) { return ty && !['any', 'fn', 'cls', 'map', 'set', 'ext', 'promise'].includes(ty.k) && !!this.hasType(T.cst('$t', 'Val'), ty); },
  nodeModule(node, s, scope) { for (let id = scope; id;) { const c = s.get(id); if (!c) return null; if (c.module) return c.module; id = c.parent; } return null; },
  getMod(s, m) { const c = s.get(m.id); return m.kind === 'var' ? c.vars.get(m.name) : m.kind === 'field' ? c.over.get(m.name) : c; },
  // havoc value of the same shape
  // is the value a list on this path? [element type holder] or null
  arrTy(st, v) {
    return (v.k === 'arr' ? [v.ty] : v.k === 'ref' && st.get(v.id)?.kind === 'arr' ? [st.get(v.id).ty] : v.k === 'val' && feasible([...st.terms(), T.not(T.is('Arr', v.t))]) === 'unsat' ? [v.ty?.k === 'arr' ? v.ty : v.ty?.types?.find((x) => x.k === 'arr')] : null);
  },
  havocV(s, v, name) {
    switch (v.k) {
      case 'bool': return [s, B(T.fresh(name, 'Bool'))];
      case 'int': return [s, I(T.fresh(name, 'Int'))];
      case 'num': return [s, R(T.fresh(name, 'Real'))];
      case 'str': return [s, S(T.fresh(name, 'String'))];
      case 'i32': return [s, W(T.fresh(name, 'BV32'), v.u)];
      case 'arr': return [s, ARR(T.fresh(name, 'Seq'), v.ty)];
      case 'obj': return [s, OBJ(T.fresh(name, 'Dict'), v.ty)];
      case 'ref': return [s, v];
      default: { const t = T.fresh(name, 'Val'); return [s.assume(T.not(T.is('Absent', t))), VAL(t)]; }
    }
  },
  setMod(s, m, v) {
    const c = s.get(m.id);
    if (m.kind === 'var') { const vars = new Map(c.vars); vars.set(m.name, v); return s.set(m.id, { ...c, vars }); }
    if (m.kind === 'field') { const over = new Map(c.over); over.set(m.name, v); return s.set(m.id, { ...c, over }); }
    return s.set(m.id, v);
  },
  havocChunk(s, c, name) {
    switch (c.kind) {
      case 'arr': return { kind: 'arr', t: T.fresh(name, 'Seq'), ty: c.ty };
      case 'obj': if (!c.cls && !c.ext) return { ...c, over: new Map(), dict: T.fresh(name, 'Dict') }; break;
      case 'map': return { ...c, t: T.fresh(name, 'VMap') };
      case 'set': return { ...c, t: T.fresh(name, 'VSet'), keys: T.fresh(name, 'Seq') };
      case 'bytes': return { kind: 'bytes', t: T.fresh(name, 'Seq') };
    }
    throw new Unsupported(`loop modifies ${c.kind} ${c.cls?.name?.text ?? c.ext ?? ''}`);
  },
  kindChanged(a, b) { // widen the havoc shape when the body changes the kind of a variable
    return !a || !b || a.k !== b.k;
  },
  loopSummary(s, n, elemAt, body, node, S_) {
    // --- pass 1: discover what the body modifies
    let mods = new Map();
    const runBody = (havocSet) => {
      const mark = T.freshMark();
      const j = T.fresh('j', 'Int');
      let sb = s;
      const hv = new Map();
      for (const [k, m] of havocSet) {
        const cur = this.getMod(s, m);
        if (m.kind === 'chunk') { const hc = this.havocChunk(sb, cur, 'hv'); hv.set(k, hc); sb = sb.set(m.id, hc); }
        else {
          let v;
          const dt = m.kind === 'var' ? this.varTypes.get(this.modKey(m)) : null;
          if (m.arrWide) v = ARR(T.fresh('hv', 'Seq'), m.arrWide[0]);
          else if (m.wide || (dt && cur.k === 'val')) { const t = T.fresh('hv', 'Val'); sb = sb.assume(T.not(T.is('Absent', t))); v = VAL(t, m.wideTy ?? dt ?? undefined); if (dt) sb = sb.assume(this.hasType(t, dt)); }
          else if (m.numWide) v = R(T.fresh('hv', 'Real'));
          else [sb, v] = this.havocV(sb, cur, 'hv');
          hv.set(k, v);
          sb = this.setMod(sb, m, v);
        }
      }
      const s0 = sb.assume(T.cmp('<=', T.int(0), j)).assume(T.cmp('<', j, n));
      const [s1, el] = elemAt ? elemAt(s0, j) : [s0, I(j)];
      const outs = this.bodyOuts(body(s1, el, I(j)));
      return { mark, j, hv, s0: s1, sHead: sb, outs };
    };
    let run = runBody(mods);
    for (let round = 0; ; round++) {
      if (round > 6) throw new Unsupported('loop modification analysis does not settle', node);
      let grew = false;
      for (const o of run.outs) {
        if (o.c !== 'norm') continue;
        for (const m of this.modified(run.s0, o.s)) {
          const k = this.modKey(m);
          if (!mods.has(k)) {
            mods.set(k, m); grew = true;
            const a = this.getMod(s, m), b = m.kind === 'var' && this.getMod(o.s, m), aa = b && this.arrTy(s, a), bb = aa && this.arrTy(o.s, b);
            if (bb && a !== b && (a.k === 'val' || a.k !== b.k || (a.k === 'ref' && a.id !== b.id))) m.arrWide = [aa[0] ?? bb[0]];
          } else {
            const mm = mods.get(k);
            if (mm.kind !== 'chunk' && !mm.wide) {
              const a = this.getMod(run.s0, mm), b = this.getMod(o.s, mm);
              const numeric = (v) => v.k === 'int' || v.k === 'num';
              const aa = this.arrTy(run.s0, a), bb = this.arrTy(o.s, b);
              if (mm.arrWide) { if (!bb) { mm.arrWide = null; mm.wide = true; grew = true; } continue; }
              if (a !== b && aa && bb && (a.k !== 'arr' || b.k !== 'arr') && !(a.k === 'ref' && b.k === 'ref' && a.id === b.id)) { mm.arrWide = [aa[0] ?? bb[0]]; grew = true; continue; }
              if (a.k !== b.k) { if (numeric(a) && numeric(b)) { if (!mm.numWide) { mm.numWide = true; grew = true; } } else if (!(b.k === 'ref' || a.k === 'ref' || a.k === 'fn')) { mm.wide = true; grew = true; } else if (!mm.wide) { mm.wide = true; mm.refs = true; grew = true; } }
            }
          }
        }
      }
      if (!grew) break;
      run = runBody(mods);
    }
    const conts = run.outs.filter((o) => o.c === 'norm'), exits = run.outs.filter((o) => o.c !== 'norm');
    const hvConsts = new Set();
    for (const h of run.hv.values()) for (const t of [h.t, h.dict, h.keys]) if (t && t.op === 'const') hvConsts.add(t);
    const mentions = (t) => { for (const c of T.constsOf(t)) if (hvConsts.has(c)) return true; return false; };
    const termsOfV = (st, v) => { try { return [this.toVal(st, v)]; } catch { return [null]; } };
    let memoryless = true;
    // arrays that are only appended to while something is searched for: their contents are left arbitrary
    const junk = new Set();
    if (exits.length && !this.opts.keepArrays) for (const m of mods.values()) if (m.kind === 'chunk' && this.getMod(s, m).kind === 'arr') junk.add(m);
    for (const o of conts) {
      for (const p of o.s.since(run.s0.pc)) if (mentions(p.t)) memoryless = false;
      for (const m of mods.values()) {
        if (junk.has(m)) continue;
        if (m.kind === 'chunk') { memoryless = false; continue; }
        const v = this.getMod(o.s, m);
        if (v.k === 'ref' && this.getMod(run.s0, m)?.k === 'ref' && v.id === this.getMod(run.s0, m).id) continue;
        for (const t of termsOfV(o.s, v)) if (!t || mentions(t)) { const same = v === run.hv.get(this.modKey(m)); memoryless = false; }
      }
    }
    for (const o of exits) for (const p of o.s.since(run.s0.pc)) if (mentions(p.t)) memoryless = false;
    if (!memoryless) return this.stateLoop(s, n, mods, run, elemAt, body, node, S_);
    return this.searchLoop(s, n, mods, run, conts, exits, node, junk);
  },
  // exact summary of a loop whose iterations do not depend on each other
  searchLoop(s, n, mods, run, conts, exits, node, junk = new Set()) {
    const { j, mark } = run;
    const sk = this.skolemMap(run, [...conts, ...exits], j, mark);
    const br = (o) => T.subst(T.and(o.s.since(run.sHead.pc).filter((p) => p.kind === 'b').map((p) => p.t)), sk);
    const Nj = T.or(conts.map(br));
    // facts that hold for every index
    const facts = [];
    for (const o of run.outs) {
      const pre = [];
      for (const p of o.s.since(run.s0.pc)) { if (p.kind === 'b') pre.push(p.t); else facts.push(T.subst(T.implies(T.and(pre), p.t), sk)); }
    }
    for (const p of run.s0.since(run.sHead.pc)) facts.push(T.subst(p.t, sk));
    const rangeJ = (jt) => T.and(T.cmp('<=', T.int(0), jt), T.cmp('<', jt, n));
    const F = T.and([...new Set(facts)].filter((f) => f !== T.cmp('<=', T.int(0), j) && f !== T.cmp('<', j, n)));
    let s1 = s;
    if (!T.isT(F)) s1 = s1.assume(this.quant(j, T.implies(rangeJ(j), F)), 'f');
    const all = this.quant(j, T.implies(rangeJ(j), Nj));
    const out = [];
    const paths = exits.length === 0 || T.isT(Nj) ? [[s1, true]] : this.fork(s1, all);
    for (const [s2, exhausted] of paths) {
      if (exhausted) {
        let s3 = s2;
        for (const m of mods.values()) {
          // value after the last iteration
          if (junk.has(m)) { s3 = s3.set(m.id, this.havocChunk(s3, this.getMod(s, m), 'any')); continue; }
          const old = this.getMod(s, m);
          const last = T.sub(n, T.int(1));
          const m2 = new Map([[j.id, last]]);
          let v = null, st = null;
          for (const o of conts.slice().reverse()) {
            const ov = this.substV(this.getMod(o.s, m), sk), c = T.subst(br(o), m2);
            const ov2 = this.substV(ov, m2);
            if (v === null) v = ov2; else v = this.joinV(c, ov2, o.s, v, s3) ?? (() => { throw new Unsupported('loop variable join', node); })();
          }
          if (v === null) v = old;
          const pos = T.cmp('<', T.int(0), n);
          let w;
          if (v.k === 'ref' || old.k === 'ref') {
            if (!(v.k === 'ref' && old.k === 'ref' && v.id === old.id)) {
              // a reference created in the last iteration: only usable by value
              w = VAL(T.ite(pos, T.subst(T.subst(this.toVal(conts[0].s, v), sk), m2), this.toVal(s, old)));
            } else w = old;
          } else w = this.joinV(pos, v, s3, old, s);
          if (!w) throw new Unsupported('loop variable join', node);
          s3 = this.setMod(s3, m, w);
        }
        out.push({ s: s3, c: 'loopdone', v: U });
        continue;
      }
      const i = this.firstTerm(Nj, j, n);
      let s3 = s2.assume(rangeJ(i)).assume(T.not(T.subst(Nj, new Map([[j.id, i]])))).assume(this.quant(j, T.implies(T.and(T.cmp('<=', T.int(0), j), T.cmp('<', j, i)), Nj)));
      const mi = new Map([[j.id, i]]);
      for (const o of exits) {
        const cond = T.subst(br(o), mi);
        const base = s3;
        // single exit: condition is implied
        const f = exits.length === 1 ? [[base.assume(cond, 'f'), true]] : this.fork(base, cond).filter((x) => x[1]);
        for (const [s4] of f) {
          const st = this.substState(o.s, run.s0, s4, [sk, mi]);
          out.push({ ...o, s: st, v: this.substV(this.substV(o.v, sk), mi) });
        }
      }
    }
    return this.finishLoop(out);
  },
  // fresh constants created inside the body become functions of the iteration index
  skolemMap(run, outs, j, mark) {
    const sk = new Map();
    const seen = new Set();
    const scan = (t) => { for (const c of T.constsOf(t, seen)) { const k = T.freshStamp(c); if (k > mark && c !== j && !sk.has(c.id)) sk.set(c.id, T.uf('sk_' + c.extra.replace('!', '_'), [j], c.sort)); } };
    for (const o of outs) {
      for (const p of o.s.since(run.sHead.pc)) scan(p.t);
      try { if (o.v && o.v.t) scan(o.v.t); } catch { /* no term */ }
      for (const [id, c] of o.s.heap) if (run.sHead.heap.get(id) !== c) for (const t of this.chunkTerms(c)) scan(t);
    }
    return sk;
  },
  chunkTerms(c) {
    const out = [];
    for (const t of [c.t, c.dict, c.keys]) if (t && t.op) out.push(t);
    const vs = c.vars ? [...c.vars.values()] : c.over ? [...c.over.values()] : [];
    if (c.els) vs.push(...c.els);
    for (const v of vs) if (v && v.t && v.t.op) out.push(v.t);
    return out;
  },
  substV(v, m) {
    if (!v || m.size === 0) return v;
    if (v.t && v.t.op) { const t = T.subst(v.t, m); if (t === v.t) return v; const r = { ...v, t }; if (v.wide) r.wide = T.subst(v.wide, m); return v.k === 'val' ? { ...this.fromVal(t, v.ty) } : r; }
    return v;
  },
  substChunk(c, m) {
    const d = { ...c };
    for (const k of ['t', 'dict', 'keys']) if (d[k] && d[k].op) d[k] = T.subst(d[k], m);
    if (d.vars) d.vars = new Map([...d.vars].map(([k, v]) => [k, this.substV(v, m)]));
    if (d.over) d.over = new Map([...d.over].map(([k, v]) => [k, this.substV(v, m)]));
    if (d.els) d.els = d.els.map((v) => this.substV(v, m));
    return d;
  },
  // state at loop exit: o (derived from base) transplanted onto target with substitutions
  substState(o, base, target, maps) {
    let st = new State(new Map(target.heap), target.pc);
    for (const [id, c] of o.heap) {
      if (base.heap.get(id) === c) { if (!st.heap.has(id)) { let d = c; for (const m of maps) d = this.substChunk(d, m); st.heap.set(id, d); } continue; }
      let d = c;
      for (const m of maps) d = this.substChunk(d, m);
      st.heap.set(id, d);
    }
    const pre = [];
    for (const p of o.since(base.pc)) {
      let t = p.t;
      for (const m of maps) t = T.subst(t, m);
      if (p.kind === 'b') { st = st.assume(t, 'f'); } else st = st.assume(t, 'f');
    }
    return st;
  },
  // canonical quantification over the index constant j
  quant(j, body) {
    let mx = 0;
    const scan = (t, seen = new Set()) => { const st = [t]; while (st.length) { const x = st.pop(); if (seen.has(x.id)) continue; seen.add(x.id); if (x.op === 'bvar') { const k = /^q(\d+)$/.exec(x.extra); if (k) mx = Math.max(mx, +k[1]); } for (const a of x.args) st.push(a); } };
    scan(body);
    const b = T.bvar(`q${mx + 1}`, j.sort);
    return T.forall([b], T.subst(body, new Map([[j.id, b]])));
  },
  // FIRST index where the predicate fails, as a function of the predicate's free constants
  firstTerm(Nj, j, n) {
    const { name, consts } = this.canon('first', [Nj, n], [j]);
    return T.uf(name, consts, 'Int');
  },
  // ---- loops whose iterations depend on each other: invariant supplied by the contract
  stateLoop(s, n, mods, run, elemAt, body, node, S_) {
    const given = !this.spec && this.invs.some((sp) => sp.over) ? this.findLoopSpec(s, n, S_, node, true) : null;
    if (given) return this.invLoop(s, n, mods, elemAt, body, node, S_, given);
    const auto = this.autoStateLoop(s, n, mods, run, elemAt, body, node, S_);
    if (auto) return auto;
    const spec = this.findLoopSpec(s, n, S_, node);
    if (!spec) {
      const ms = [...mods.values()].map((m) => m.name ?? s.get(m.id)?.kind).join(', ');
      throw new Unsupported(`loop carries state (${ms}) and no invariant applies`, node);
    }
    return this.invLoop(s, n, mods, elemAt, body, node, S_, spec);
  },
  autoStateLoop() { return null; },
  invLoop(s, n, mods, elemAt, body, node, S_, spec) {
    const list = [...mods.values()].sort((a, b) => this.modOrder(s, a) - this.modOrder(s, b));
    const name = this.nodeName(node);
    const stOf = (st) => list.map((m) => (m.kind === 'chunk' ? REF(m.id) : this.getMod(st, m)));
    const evalInv = (st, i) => { spec.busy = (spec.busy || 0) + 1; try { return this.evalSpecFn(spec.inv, { trace: REF(this.traceId), ...this.ctxV, ...(this.loopCtx || {}), i: I(i), n: I(n), st: { k: 'tuple', els: stOf(st) }, seq: S_ ? ARR(S_) : U, vars: { k: 'loopvars', st, node, scope: this.loopScopes?.get(node) } }, st); } finally { spec.busy--; } };
    // init
    for (const [nm, st2, t] of evalInv(s, T.int(0))) this.addObligation(`${name}: loop invariant '${nm}' holds initially`, st2, t, node);
    // preservation
    const havocked = (i) => {
      let sb = s;
      for (const m of list) {
        const cur = this.getMod(s, m);
        if (m.kind === 'chunk') sb = sb.set(m.id, this.havocChunk(sb, cur, 'inv'));
        else {
          let v;
          const dt = m.kind === 'var' ? this.varTypes.get(this.modKey(m)) : null;
          if (m.arrWide) v = ARR(T.fresh('inv', 'Seq'), m.arrWide[0]);
          else if (m.wide || (dt && cur.k === 'val')) { const t = T.fresh('inv', 'Val'); sb = sb.assume(T.not(T.is('Absent', t))); v = VAL(t, m.wideTy ?? dt ?? undefined); if (dt) sb = sb.assume(this.hasType(t, dt)); }
          else if (m.numWide) v = R(T.fresh('inv', 'Real'));
          else [sb, v] = this.havocV(sb, cur, 'inv');
          sb = this.setMod(sb, m, v);
        }
      }
      for (const [, st2, t] of evalInv(sb, i)) sb = this.adopt(sb, st2).assume(t);
      return sb;
    };
    const j = T.fresh('i', 'Int');
    let sb = havocked(j).assume(T.cmp('<=', T.int(0), j));
    sb = sb.assume(T.cmp('<', j, n));
    for (const l of spec.lemmas || []) sb = this.lemmaInstance(sb, l, { ...this.ctxV, i: I(j), vars: { k: 'loopvars', st: sb, node, scope: this.loopScopes?.get(node) } }, node);
    const [s1, el] = elemAt ? elemAt(sb, j) : [sb, I(j)];
    const outs = this.bodyOuts(body(s1, el, I(j)));
    const out = [];
    for (const o of outs) {
      if (o.c === 'norm') { for (const [nm, st2, t] of evalInv(o.s, T.add(j, T.int(1)))) this.addObligation(`${name}: loop invariant '${nm}' is preserved`, st2, t, node); } else out.push(o);
    }
    let se = havocked(n);
    out.push({ s: se, c: 'loopdone', v: U });
    return this.finishLoop(out);
  },
  // the postcondition of another contract (proved on its own) for given arguments
  lemmaInstance(s, l, binds, node) {
    const c = this.opts.contractByName(l.use);
    if (l.when) { // facts of a lemma that applies under a condition only
      let r = s;
      const conds = this.evalSpecFn(l.when, binds, s).map(([, st2, t]) => { r = this.adopt(r, st2); return t; });
      let sc = r;
      for (const t of conds) sc = sc.assume(t, 'f');
      if (T.isF(T.and(...conds))) return r;
      const s2 = this.lemmaInstance(sc, { ...l, when: undefined }, binds, node);
      for (const p of s2.since(sc.pc)) r = r.assume(T.implies ? T.implies(T.and(...conds), p.t) : T.or(T.not(T.and(...conds)), p.t), 'f');
      for (const [id, c] of s2.heap) if (!r.heap.has(id)) { r = new State(new Map(r.heap), r.pc); r.heap.set(id, c); }
      return r;
    }
    const vs = this.evalSpecValue(l.args, binds, s);
    let s1 = this.adopt(s, this.lastSpecState);
    const vals = [];
    for (const nm of this.opts.contractParams(c)) { const r = this.readProp(s1, vs, nm, node); if (r.length !== 1) throw new Unsupported('lemma argument', node); s1 = r[0].s; vals.push(this.toVal(s1, r[0].v)); }
    const sort = c.opaque === true ? 'Val' : c.opaque, t0 = T.uf('fn_' + c.name.replace(/[^A-Za-z0-9_]/g, '_'), vals, sort);
    const res = sort === 'Bool' ? B(t0) : sort === 'String' ? S(t0) : sort === 'Int' ? I(t0) : sort === 'Seq' ? { k: 'arr', t: t0, ty: l.type ? parseTypeText(l.type, this.opts.targetModule ?? null) : undefined } : VAL(T.rd(t0), l.type ? parseTypeText(l.type, this.opts.targetModule ?? null) : undefined);
    for (const [, st2, t] of this.evalSpecFn(c.ensures, { self: U, args: vs, result: res, thrown: B(T.FALSE()), old: U }, s1)) s1 = this.adopt(s1, st2).assume(t, 'f');
    return s1;
  },
  adopt(s, st2) { // bring facts generated while evaluating a spec into s
    let r = s;
    for (const p of st2.since(s.pc)) r = r.assume(p.t, 'f');
    for (const [id, c] of st2.heap) if (!r.heap.has(id)) { r = new State(new Map(r.heap), r.pc); r.heap.set(id, c); }
    return r;
  },
  modOrder(s, m) { // declaration order: scopes outer to inner, variables in declaration order
    const c = s.get(m.id);
    if (m.kind === 'var') return m.id * 1000 + [...c.vars.keys()].indexOf(m.name);
    return m.id * 1000;
  },
  findLoopSpec(s, n, S_, node, overOnly) {
    for (const sp of this.invs) { if (sp.busy) continue;
      if (sp.over) {
        const r = this.evalSpecValue(sp.over, { trace: REF(this.traceId), ...this.ctxV, vars: { k: 'loopvars', st: s, node, scope: this.loopScopes?.get(node) } }, s);
        const t = r && (r.k === 'arr' ? r.t : r.k === 'ref' && this.lastSpecState.get(r.id)?.kind === 'arr' ? this.seqOf(this.lastSpecState, r.id) : r.k === 'int' ? r.t : r.k === 'val' ? T.un('Arr', r.t) : null);
        if (t && (t === S_ || t === n)) return sp;
        if (t && S_ && t.sort === 'Seq' && feasible([...s.terms(), T.not(T.eq(t, S_))]) === 'unsat') return sp;
      } else if (!overOnly) return sp;
    }
    return null;
  },
  nodeName(node) {
    let n = node;
    while (n && !ts.isMethodDeclaration(n) && !ts.isFunctionDeclaration(n) && !ts.isConstructorDeclaration(n) && !(ts.isVariableDeclaration(n) && ts.isSourceFile(n.parent?.parent?.parent))) n = n.parent;
    return n?.name?.getText?.() ?? 'constructor';
  },
  // for (let i = a; i < n; i++) over indices
  execFor(st, s, scope) {
    const m = this.indexLoop(st);
    const [s0, sc] = this.newScope(s, scope);
    (this.loopScopes ??= new Map()).set(st, sc);
    const inits = st.initializer ? (ts.isVariableDeclarationList(st.initializer) ? this.execVarList(st.initializer, s0, sc) : this.then(this.evalE(st.initializer, s0, sc), (s2) => [norm(s2, U)])) : [norm(s0, U)];
    return this.then(inits, (s1) => {
      // try concrete unrolling
      const first = st.condition ? this.evalCond(st.condition, s1, sc) : [[s1, true]];
      if (first.length === 1 && !first[0][0].c && T.isT(this.condTerm(st.condition, s1, sc) ?? T.FALSE())) {
        const u = this.unrollFor(st, s1, sc);
        if (u) return u;
      }
      if (!m || this.indexAssigned(st, m.name)) return this.genericLoop(st, s1, sc, st.condition, st.incrementor);
      // bound expression must be loop-invariant
      return this.then(this.evalE(m.bound, s1, sc), (s2, bv) => {
        if (bv.k !== 'int') throw new Unsupported('loop bound', st);
        const start = s2.get(sc).vars.get(m.name);
        if (start.k !== 'int') throw new Unsupported('loop start', st);
        const offs = start.t;
        const hi = m.incl ? T.add(bv.t, T.int(1)) : bv.t;
        const cnt0 = T.sub(hi, offs);
        const n = T.isF(T.cmp('<', hi, offs)) ? cnt0 : (cnt0.op === 'seq.len' || cnt0.op === 'int') ? cnt0 : T.ite(T.cmp('<=', offs, hi), cnt0, T.int(0));
        const S_ = this.loopSeq(m, s2, sc);
        const body = (s3, el) => {
          const idx = I(T.add(el.t, offs));
          const [s4, isc] = this.newScope(s3, scope);
          let s5 = s4;
          // per-iteration copy of the header scope
          const vars = new Map(s3.get(sc).vars); vars.set(m.name, idx);
          s5 = s5.set(isc, { kind: 'scope', vars, parent: scope });
          return this.execStmt(st.statement, s5, isc).map((o) => {
            const after = o.s.get(isc).vars.get(m.name);
            if ((o.c === 'norm' || o.c === 'continue') && after !== idx) throw new Unsupported('loop index modified in the body', st);
            return o;
          });
        };
        // a bound that the body changes is not supported by the index summary
        const res = this.loopSummary(s2, n, null, body, st, S_);
        return res;
      });
    });
  },
  loopSeq(m, s, sc) {
    if (m.seqExpr) { const o = this.evalE(m.seqExpr, s, sc); if (o.length === 1 && o[0].c === 'norm') { const v = o[0].v; if (v.k === 'arr') return v.t; if (v.k === 'ref' && s.get(v.id)?.kind === 'arr' && !s.get(v.id).els) return s.get(v.id).t; } }
    return null;
  },
  condTerm(c, s, sc) { const os = this.evalE(c, s, sc); return os.length === 1 && os[0].c === 'norm' ? this.truthy(os[0].s, os[0].v) : null; },
  unrollFor(st, s1, sc) {
    let outs = [norm(s1, U)];
    const done = [];
    for (let k = 0; k < 65; k++) {
      const next = [];
      for (const o of outs) {
        const c = this.condTerm(st.condition, o.s, sc);
        if (!c || (!T.isT(c) && !T.isF(c))) return null;
        if (T.isF(c)) { done.push({ s: o.s, c: 'loopdone', v: U }); continue; }
        for (const r of this.bodyOuts(this.execStmt(st.statement, o.s, sc))) {
          if (r.c !== 'norm') { done.push(r); continue; }
          if (!st.incrementor) next.push(r);
          else for (const q of this.evalE(st.incrementor, r.s, sc)) (q.c === 'norm' ? next : done).push(q.c === 'norm' ? norm(q.s, U) : q);
        }
      }
      outs = this.joinNorm(s1, next);
      if (outs.length === 0) return this.finishLoop(done);
    }
    return null;
  },
  indexLoop(st) {
    if (!st.initializer || !ts.isVariableDeclarationList(st.initializer) || !st.condition || !st.incrementor) return null;
    const d = st.initializer.declarations[0];
    if (!ts.isIdentifier(d.name)) return null;
    const name = d.name.text;
    const c = st.condition;
    if (!ts.isBinaryExpression(c) || !ts.isIdentifier(c.left) || c.left.text !== name) return null;
    const op = c.operatorToken.kind;
    if (op !== SK.LessThanToken && op !== SK.LessThanEqualsToken) return null;
    const inc = st.incrementor;
    const isInc = (ts.isPostfixUnaryExpression(inc) || ts.isPrefixUnaryExpression(inc)) && inc.operator === SK.PlusPlusToken && ts.isIdentifier(inc.operand) && inc.operand.text === name;
    if (!isInc) return null;
    const seqExpr = ts.isPropertyAccessExpression(c.right) && c.right.name.text === 'length' ? c.right.expression : null;
    return { name, bound: c.right, incl: op === SK.LessThanEqualsToken, seqExpr };
  },
  // is the loop variable assigned inside the body?
  indexAssigned(st, name) {
    let found = false;
    const visit = (n) => {
      if (found) return;
      if ((ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n)) && (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken) && ts.isIdentifier(n.operand) && n.operand.text === name) { found = true; return; }
      if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment && ts.isIdentifier(n.left) && n.left.text === name) { found = true; return; }
      ts.forEachChild(n, visit);
    };
    visit(st.statement);
    return found;
  },
  execWhile(st, s, scope) {
    return this.genericLoop(st, s, scope, st.expression, null);
  },
  // while loops and irregular for loops: need an invariant (partial correctness)
  genericLoop(st, s, sc, cond, inc) {
    const isDo = ts.isDoStatement(st);
    const step = (s1) => { // one iteration from a state where cond was checked
      return this.bodyOuts(this.execStmt(st.statement, s1, sc)).flatMap((o) => (o.c === 'norm' && inc ? this.evalE(inc, o.s, sc).map((q) => (q.c === 'norm' ? norm(q.s, U) : q)) : [o]));
    };
    // bounded concrete unrolling when the condition is decided
    {
      let outs = [norm(s, U)], done = [], ok = true, k = 0;
      for (; k < 40 && outs.length && ok; k++) {
        const next = [];
        for (const o of outs) {
          const cs = isDo && k === 0 ? [[o.s, true]] : cond ? this.evalCond(cond, o.s, sc) : [[o.s, true]];
          if (cs.length > 1 && cs.filter((x) => !x[0].c).length > 1) { ok = false; break; }
          for (const [s2, b] of cs) {
            if (s2.c) { done.push(s2); continue; }
            if (!b) { done.push({ s: s2, c: 'loopdone', v: U }); continue; }
            for (const r of step(s2)) (r.c === 'norm' ? next : done).push(r);
          }
        }
        outs = next;
      }
      if (ok && outs.length === 0) return this.finishLoop(done);
    }
    const spec = this.findLoopSpec(s, null, null, st);
    if (!spec) throw new Unsupported('while loop without an applicable invariant', st);
    if (isDo) throw new Unsupported('do-while with symbolic condition', st);
    // modified places
    const mods = new Map();
    const havoc = () => {
      let sb = s;
      for (const m of mods.values()) {
        const cur = this.getMod(s, m);
        if (m.kind === 'chunk') sb = sb.set(m.id, this.havocChunk(sb, cur, 'inv'));
        else { let v; if (m.wide) { const t = T.fresh('inv', 'Val'); sb = sb.assume(T.not(T.is('Absent', t))); v = VAL(t, m.wideTy); } else [sb, v] = this.havocV(sb, cur, 'inv'); sb = this.setMod(sb, m, v); }
      }
      return sb;
    };
    const iter = (sb) => {
      const res = [];
      for (const [s2, b] of cond ? this.evalCond(cond, sb, sc) : [[sb, true]]) {
        if (s2.c) res.push(s2);
        else if (!b) res.push({ s: s2, c: 'loopdone', v: U });
        else res.push(...step(s2));
      }
      return res;
    };
    const evalInv = (st2) => this.evalSpecFn(spec.inv, { trace: REF(this.traceId), ...this.ctxV, st: { k: 'tuple', els: [...mods.values()].sort((a, b) => this.modOrder(s, a) - this.modOrder(s, b)).map((m) => (m.kind === 'chunk' ? REF(m.id) : this.getMod(st2, m))) }, vars: { k: 'loopvars', st: st2, node: st, scope: sc } }, st2);
    for (let round = 0; ; round++) {
      if (round > 6) throw new Unsupported('loop analysis does not settle', st);
      let sb = havoc();
      for (const [, st2, t] of evalInv(sb)) sb = this.adopt(sb, st2).assume(t);
      let grew = false;
      for (const o of iter(sb)) if (o.c === 'norm') for (const m of this.modified(sb, o.s)) {
        const k = this.modKey(m);
        if (!mods.has(k)) { mods.set(k, m); grew = true; } else if (m.kind !== 'chunk' && !mods.get(k).wide) { const a = this.getMod(sb, m), b2 = this.getMod(o.s, m); if (a.k !== b2.k) { mods.get(k).wide = true; grew = true; } }
      }
      if (!grew) break;
    }
    const list = [...mods.values()].sort((a, b) => this.modOrder(s, a) - this.modOrder(s, b));
    const name = this.nodeName(st);
    for (const [nm, st2, t] of evalInv(s)) this.addObligation(`${name}: loop invariant '${nm}' holds initially`, st2, t, st);
    let sb = havoc();
    for (const [, st2, t] of evalInv(sb)) sb = this.adopt(sb, st2).assume(t);
    for (const l of spec.lemmas || []) sb = this.lemmaInstance(sb, l, { ...this.ctxV, vars: { k: 'loopvars', st: sb, node: st, scope: sc } }, st);
    const out = [];
    for (const o of iter(sb)) {
      if (o.c === 'norm') { for (const [nm, st2, t] of evalInv(o.s)) this.addObligation(`${name}: loop invariant '${nm}' is preserved`, st2, t, st); } else out.push(o);
    }
    return this.finishLoop(out);
  },
};
Object.assign(Exec.prototype, P);
