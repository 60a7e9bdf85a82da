// Expressions, property access, assignment. Mixed into Exec.prototype.
import { feasible } from './solver.mjs';
import * as T from './terms.mjs';
import { ts, resolveType, propType, elemType, anyType, isStatic, isServiceType, unionType, lookupExport } from './front.mjs';
import { Exec, Unsupported, State, U, N, B, I, R, S, VAL, ARR, OBJ, REF, W, NANV, INF, norm, throwO, newId } from './exec.mjs';
const SK = ts.SyntaxKind;
const isNumK = (v) => v.k === 'int' || v.k === 'num';
const strip = (e) => { while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isTypeAssertionExpression(e) || ts.isSatisfiesExpression(e)) e = e.expression; return e; };
export { strip };

export const P = {
  evalE(node, s, scope) {
    const e = strip(node);
    let outs = this.evalE0(e, s, scope);
    // optional chain root
    if (outs.some((o) => o.c === 'short')) {
      let p = e.parent, child = e;
      while (p && ts.isNonNullExpression(p)) { child = p; p = p.parent; }
      const inChain = p && ts.isOptionalChain(p) && p.expression === child;
      if (!inChain) outs = outs.map((o) => (o.c === 'short' ? norm(o.s, U) : o));
    }
    return outs;
  },
  evalE0(e, s, scope) {
    switch (e.kind) {
      case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return [norm(s, S(e.text))];
      case SK.NumericLiteral: { const n = Number(e.text); return [norm(s, Number.isSafeInteger(n) ? I(n) : R(T.real(n)))]; }
      case SK.TrueKeyword: return [norm(s, B(true))];
      case SK.FalseKeyword: return [norm(s, B(false))];
      case SK.NullKeyword: return [norm(s, N)];
      case SK.RegularExpressionLiteral: return [norm(s, { k: 'regex', t: T.ctor('Str', T.str(e.text)), lit: e.text })];
      case SK.Identifier: return this.evalIdent(e, s, scope);
      case SK.ThisKeyword: return [norm(s, this.lookupThis(s, scope, e))];
      case SK.TemplateExpression: {
        return this.then(this.list(e.templateSpans.map((x) => x.expression), s, scope), (s2, vs) => {
          const parts = [T.str(e.head.text)];
          vs.forEach((v, i) => { parts.push(this.toStr(s2, v)); parts.push(T.str(e.templateSpans[i].literal.text)); });
          return [norm(s2, S(T.sconcat(parts)))];
        });
      }
      case SK.ArrayLiteralExpression: {
        return this.then(this.list(e.elements, s, scope), (s2, vs) => this.mkArray(s2, vs));
      }
      case SK.ObjectLiteralExpression: return this.evalObjLit(e, s, scope);
      case SK.ArrowFunction: case SK.FunctionExpression: return [norm(s, this.closure(e, scope, ts.isArrowFunction(e) ? null : U, this.moduleOfScope(s, scope)))];
      case SK.PropertyAccessExpression: {
        return this.then(this.evalE(e.expression, s, scope), (s2, v) => this.chainQ(e, s2, v, (s3, w) => this.readProp(s3, w, e.name.text, e)));
      }
      case SK.ElementAccessExpression: {
        return this.then(this.evalE(e.expression, s, scope), (s2, v) => this.chainQ(e, s2, v, (s3, w) => this.then(this.evalE(e.argumentExpression, s3, scope), (s4, k) => this.readKey(s4, w, k, e))));
      }
      case SK.CallExpression: return this.evalCall(e, s, scope);
      case SK.NewExpression: return this.evalNew(e, s, scope);
      case SK.ConditionalExpression: {
        const outs = [];
        for (const [s2, b] of this.evalCond(e.condition, s, scope)) {
          if (s2.c) { outs.push(s2); continue; }
          outs.push(...this.evalE(b ? e.whenTrue : e.whenFalse, s2, scope));
        }
        return this.tryMerge(s, outs);
      }
      case SK.BinaryExpression: return this.evalBinary(e, s, scope);
      case SK.PrefixUnaryExpression: return this.evalPrefix(e, s, scope);
      case SK.PostfixUnaryExpression: {
        return this.then(this.evalE(e.operand, s, scope), (s2, v) => this.then(this.toNum(s2, v), (s3, n) => this.then(this.arith(s3, e.operator === SK.PlusPlusToken ? '+' : '-', n, I(1), e), (s4, w) => this.then(this.assign(e.operand, s4, scope, w), (s5) => [norm(s5, n)]))));
      }
      case SK.TypeOfExpression: {
        const op = strip(e.expression);
        if (ts.isIdentifier(op) && !this.nameExists(s, scope, op.text)) return [norm(s, this.typeofGlobal(op.text))];
        return this.then(this.evalE(e.expression, s, scope), (s2, v) => this.then(this.resolveOpt(s2, v), (s3, w) => [norm(s3, S(this.typeofTerm(s3, w)))]));
      }
      case SK.VoidExpression: return this.then(this.evalE(e.expression, s, scope), (s2) => [norm(s2, U)]);
      case SK.AwaitExpression: return this.then(this.evalE(e.expression, s, scope), (s2, v) => this.awaitV(s2, v, e));
      case SK.DeleteExpression: {
        const t = strip(e.expression);
        return this.then(this.evalE(t.expression, s, scope), (s2, o) => {
          if (ts.isPropertyAccessExpression(t)) return this.then(this.deleteProp(s2, o, S(t.name.text), t), (s3) => [norm(s3, B(true))]);
          return this.then(this.evalE(t.argumentExpression, s2, scope), (s3, k) => this.then(this.deleteProp(s3, o, k, t), (s4) => [norm(s4, B(true))]));
        });
      }
      case SK.SuperKeyword: return [norm(s, { ...this.lookupThis(s, scope, e), super: true })];
      case SK.CommaListExpression: throw new Unsupported('comma list', e);
      case SK.MetaProperty: return [norm(s, U)];
      default: throw new Unsupported(`expression ${SK[e.kind]}`, e);
    }
  },
  chainQ(e, s, v, f) {
    if (!e.questionDotToken) return f(s, v);
    return this.then(this.resolveOpt(s, v), (s1, w) => {
      const n = this.nullish(w);
      if (T.isF(n)) return f(s1, w);
      const out = [];
      for (const [s2, isN] of this.fork(s1, n)) {
        if (isN) out.push({ s: s2, c: 'short', v: U });
        else out.push(...f(s2, w));
      }
      return out;
    });
  },
  mkArray(s, vs) {
    if (vs.some((v) => v.k === 'spread')) {
      const t = T.concat(vs.map((v) => (v.k === 'spread' ? v.t : T.unit(this.toVal(s, v)))));
      let s2 = s;
      for (const v of vs) if (v.k !== 'spread') s2 = this.freeze(s2, v);
      const tys = vs.filter((v) => v.k === 'spread').map((v) => v.ty);
      const [s3, r] = this.alloc(s2, { kind: 'arr', t, ty: tys.length && tys.every((x) => x) && vs.every((v) => v.k === 'spread') ? { k: 'arr', el: () => unionType(tys) } : undefined });
      return [norm(s3, r)];
    }
    const [s2, r] = this.alloc(s, { kind: 'arr', els: vs });
    return [norm(s2, r)];
  },
  // a locally allocated object becomes part of a term: later writes would be missed
  freeze(s, v) {
    if (v.k !== 'ref') return s;
    const c = s.get(v.id);
    if (!c || c.frozen || c.cls || c.ext || !['obj', 'arr'].includes(c.kind)) return s;
    let s2 = s.set(v.id, { ...c, frozen: true });
    if (c.kind === 'obj') for (const x of c.over.values()) if (x) s2 = this.freeze(s2, x);
    if (c.els) for (const x of c.els) s2 = this.freeze(s2, x);
    return s2;
  },
  moduleOfScope(s, scope) {
    for (let id = scope; id;) { const c = s.get(id); if (c.module) return c.module; if (c.m) return c.m; id = c.parent; }
    return null;
  },
  lookupThis(s, scope, node) {
    for (let id = scope; id;) { const c = s.get(id); if (c.vars.has('this')) return c.vars.get('this'); id = c.parent; }
    return U;
  },
  nameExists(s, scope, name) {
    for (let id = scope; id;) {
      const c = s.get(id);
      if (c.vars.has(name)) return true;
      if (c.module && (c.module.decls.has(name) || c.module.imports.has(name))) return true;
      id = c.parent;
    }
    return !!this.globalValue(name) ;
  },
  typeofGlobal(name) {
    const g = this.opts.globalTypeof?.[name];
    return S(g ?? 'undefined');
  },
  evalIdent(e, s, scope) {
    const name = e.text;
    if (name === 'undefined') return [norm(s, U)];
    for (let id = scope; id;) {
      const c = s.get(id);
      if (!c) throw new Unsupported(`lost scope while reading ${name}`, e);
      if (c.vars.has(name)) return [norm(s, c.vars.get(name))];
      if (c.module) {
        const r = this.readModuleName(s, c.module, name, e);
        if (r) return r;
      }
      id = c.parent;
    }
    if (this.overrides[name]) return [norm(s, { k: 'fn', fn: this.overrideFn(name, this.overrides[name]) })];
    if (name === 'NaN') return [norm(s, NANV)];
    if (name === 'Infinity') return [norm(s, INF(false))];
    const g = this.globalValue(name, s);
    if (g) return Array.isArray(g) ? g : [norm(s, g)];
    throw new Unsupported(`unknown name ${name}`, e);
  },
  evalObjLit(e, s, scope) {
    let outs = [norm(s, { dict: T.emptyDict(), over: new Map(), tys: new Map() })];
    for (const p of e.properties) {
      outs = this.then(outs, (s1, acc) => {
        const put = (s2, name, v) => {
          const over = new Map(acc.over);
          over.delete(name);
          over.set(name, v);
          return [norm(s2, { ...acc, over })];
        };
        if (ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p)) {
          const init = ts.isPropertyAssignment(p) ? p.initializer : p.name;
          if (ts.isComputedPropertyName(p.name)) {
            return this.then(this.evalE(p.name.expression, s1, scope), (s2, k) => this.then(this.evalE(init, s2, scope), (s3, v) => {
              if (k.k === 'str' && k.t.op === 'str') { const over = new Map(acc.over); over.set(k.t.extra, v); return [norm(s3, { ...acc, over })]; }
              const s4 = this.freeze(s3, v);
              const flat = this.flat(s4, acc);
              return [norm(s4, { dict: T.store(flat, this.keyTerm(s4, k), this.toVal(s4, v)), over: new Map() })];
            }));
          }
          return this.then(this.evalE(init, s1, scope), (s2, v) => put(s2, p.name.text, v));
        }
        if (ts.isSpreadAssignment(p)) {
          return this.then(this.evalE(p.expression, s1, scope), (s2, v) => this.then(this.resolveOpt(s2, v), (s3, w) => this.spreadInto(s3, acc, w, p)));
        }
        if (ts.isMethodDeclaration(p)) return put(s1, p.name.text, this.closure(p, scope, null, this.moduleOfScope(s1, scope)));
        throw new Unsupported('object member', p);
      });
    }
    return this.then(outs, (s1, acc) => {
      const [s2, r] = this.alloc(s1, { kind: 'obj', dict: acc.dict, over: acc.over, lits: acc.ty });
      return [norm(s2, r)];
    });
  },
  flat(s, acc) {
    let d = acc.dict;
    for (const [k, v] of acc.over) d = T.store(d, T.str(k), v === null ? T.V.Absent() : this.toVal(s, v));
    return d;
  },
  // {...v} over acc
  spreadInto(s, acc, v, node) {
    switch (v.k) {
      case 'undef': case 'null': case 'bool': case 'int': case 'num': case 'nan': case 'fn': return [norm(s, acc)];
      case 'obj': return this.spreadDict(s, acc, v.t, v.ty);
      case 'ref': {
        const c = s.get(v.id);
        if (c.kind === 'obj' && !c.ext) {
          if (c.cls && c.lazyCls) throw new Unsupported('spread of a symbolic class instance', node);
          if (c.dict.op === 'emptyDict') {
            const over = new Map(acc.over);
            for (const [k, x] of c.over) if (x !== null) { over.delete(k); over.set(k, x); }
            return [norm(s, { ...acc, over })];
          }
          return this.spreadDict(s, acc, this.dictOf(s, v.id));
        }
        if (c.kind === 'obj' && c.ext) {
          // spread of an opaque service: its members, unknown
          return this.spreadDict(s, acc, T.cst(`props(${c.path})`, 'Dict'));
        }
        throw new Unsupported('spread of non-object', node);
      }
      case 'val': {
        const t = v.t;
        const d = T.ite(T.is('Obj', t), T.un('Obj', t), T.emptyDict());
        if (v.ty && v.ty.k === 'any') { // strings and arrays would spread their elements
          this.assumptions.add('spread of a value of unknown type treats strings and arrays as having no own keys');
        }
        const feasObj = this.spec ? 'x' : null;
        return this.spreadDict(s, acc, d, undefined);
      }
    }
    throw new Unsupported(`spread of ${v.k}`, node);
  },
  spreadDict(s, acc, d) {
    let base = acc.dict, over = acc.over;
    if (over.size || base.op !== 'emptyDict') {
      let s2 = s;
      for (const x of over.values()) if (x) s2 = this.freeze(s2, x);
      return [norm(s2, { dict: T.merge(this.flat(s2, acc), d), over: new Map() })];
    }
    return [norm(s, { dict: d, over: new Map() })];
  },
  keyTerm(s, k) { return this.toStr(s, k); },

  // ---------------------------------------------------------------- conditions
  // -> [[state, bool] | [outcome(c!='norm'), null]] ; states joined per truth value
  evalCond(node, s, scope) {
    const raw = this.evalCond0(node, s, scope);
    const yes = [], no = [], out = [];
    for (const r of raw) (r[0].c ? out : r[1] ? yes : no).push(r);
    for (const [list, b] of [[yes, true], [no, false]]) {
      const js = this.joinPure(s, list.map((x) => x[0]));
      for (const j of js) out.push([j, b]);
    }
    return out;
  },
  evalCond0(node, s, scope) {
    const e = strip(node);
    if (ts.isPrefixUnaryExpression(e) && e.operator === SK.ExclamationToken) return this.evalCond(e.operand, s, scope).map(([x, b]) => (x.c ? [x, b] : [x, !b]));
    if (ts.isBinaryExpression(e)) {
      const op = e.operatorToken.kind;
      if (op === SK.AmpersandAmpersandToken || op === SK.BarBarToken) {
        const and = op === SK.AmpersandAmpersandToken;
        const out = [];
        for (const [s1, b] of this.evalCond(e.left, s, scope)) {
          if (s1.c) out.push([s1, null]);
          else if (b !== and) out.push([s1, b]);
          else out.push(...this.evalCond(e.right, s1, scope));
        }
        return out;
      }
    }
    const out = [];
    for (const o of this.evalE(e, s, scope)) {
      if (o.c !== 'norm') { out.push([o, null]); continue; }
      for (const [s2, b] of this.fork(o.s, this.truthy(o.s, o.v))) out.push([s2, b]);
    }
    return out;
  },
  // join states that are heap-pure relative to base
  joinPure(base, states) {
    if (states.length < 2) return states;
    if (!states.every((x) => this.heapPure(base, x))) return states;
    const r = this.mergeOutcomes(base, states.map((x) => norm(x, U)));
    if (!r) return states;
    const conds = states.map((x) => T.and(x.since(base.pc).filter((p) => p.kind === 'b').map((p) => p.t)));
    return [r[0].assume(T.or(conds), 'b')];
  },

  // ---------------------------------------------------------------- operators
  evalBinary(e, s, scope) {
    const op = e.operatorToken.kind;
    switch (op) {
      case SK.EqualsToken: {
        const l = strip(e.left);
        if (ts.isObjectLiteralExpression(l) || ts.isArrayLiteralExpression(l)) throw new Unsupported('destructuring assignment', e);
        return this.assignTo(l, s, scope, (s2) => this.evalE(e.right, s2, scope));
      }
      case SK.PlusEqualsToken: case SK.MinusEqualsToken: case SK.AsteriskEqualsToken: case SK.BarEqualsToken: case SK.CaretEqualsToken: case SK.AmpersandEqualsToken: case SK.SlashEqualsToken: case SK.PercentEqualsToken:
      case SK.LessThanLessThanEqualsToken: case SK.GreaterThanGreaterThanEqualsToken: case SK.GreaterThanGreaterThanGreaterThanEqualsToken: {
        const sym = e.operatorToken.getText().slice(0, -1);
        return this.then(this.evalE(e.left, s, scope), (s1, a) => this.then(this.evalE(e.right, s1, scope), (s2, b) => this.then(this.binop(s2, sym, a, b, e), (s3, v) => this.then(this.assign(e.left, s3, scope, v), (s4) => [norm(s4, v)]))));
      }
      case SK.QuestionQuestionEqualsToken: case SK.BarBarEqualsToken: case SK.AmpersandAmpersandEqualsToken: {
        return this.then(this.evalE(e.left, s, scope), (s1, a0) => this.then(this.resolveOpt(s1, a0), (s1b, a) => {
          const c = op === SK.QuestionQuestionEqualsToken ? this.nullish(a) : op === SK.BarBarEqualsToken ? T.not(this.truthy(s1b, a)) : this.truthy(s1b, a);
          const out = [];
          for (const [s2, doit] of this.fork(s1b, c)) {
            if (!doit) out.push(norm(s2, a));
            else out.push(...this.then(this.evalE(e.right, s2, scope), (s3, v) => this.then(this.assign(e.left, s3, scope, v), (s4) => [norm(s4, v)])));
          }
          return out;
        }));
      }
      case SK.AmpersandAmpersandToken: case SK.BarBarToken: case SK.QuestionQuestionToken: {
        const outs = this.then(this.evalE(e.left, s, scope), (s1, a0) => this.then(this.resolveOpt(s1, a0), (s1b, a) => {
          const c = op === SK.QuestionQuestionToken ? this.nullish(a) : op === SK.BarBarToken ? T.not(this.truthy(s1b, a)) : this.truthy(s1b, a);
          const out = [];
          for (const [s2, right] of this.fork(s1b, c)) {
            if (!right) out.push(norm(s2, this.narrow(a, op)));
            else out.push(...this.evalE(e.right, s2, scope));
          }
          return out;
        }));
        return this.tryMerge(s, outs);
      }
      case SK.CommaToken: return this.then(this.evalE(e.left, s, scope), (s1) => this.evalE(e.right, s1, scope));
      case SK.InKeyword: return this.then(this.evalE(e.left, s, scope), (s1, k) => this.then(this.evalE(e.right, s1, scope), (s2, o) => this.hasKey(s2, o, k, e)));
      case SK.InstanceOfKeyword: return this.then(this.evalE(e.left, s, scope), (s1, v) => this.then(this.evalE(e.right, s1, scope), (s2, c) => this.instanceOf(s2, v, c, e)));
      default: return this.then(this.evalE(e.left, s, scope), (s1, a) => this.then(this.evalE(e.right, s1, scope), (s2, b) => this.binop(s2, e.operatorToken.getText(), a, b, e)));
    }
  },
  narrow(a, op) {
    if (a.k !== 'val' || !a.ty || a.ty.k !== 'union') return a;
    let types = a.ty.types;
    if (op === SK.QuestionQuestionToken || op === SK.BarBarToken) types = types.filter((x) => x.k !== 'undef' && x.k !== 'null');
    if (types.length === 0 || types.length === a.ty.types.length) return a;
    return { ...a, ty: types.length === 1 ? types[0] : { k: 'union', types } };
  },
  binop(s, op, a, b, node) {
    if (a.k === 'opt' || b.k === 'opt') {
      if (!['===', '!==', '==', '!='].includes(op)) return this.then(this.resolveOpt(s, a), (s1, x) => this.then(this.resolveOpt(s1, b), (s2, y) => this.binop(s2, op, x, y, node)));
    }
    switch (op) {
      case '===': return [norm(s, B(this.strictEq(s, a, b)))];
      case '!==': return [norm(s, B(T.not(this.strictEq(s, a, b))))];
      case '==': case '!=': {
        let t;
        if (b.k === 'null' || b.k === 'undef') t = this.nullish(a);
        else if (a.k === 'null' || a.k === 'undef') t = this.nullish(b);
        else if (a.k === b.k && a.k !== 'val') t = this.strictEq(s, a, b);
        else if ((isNumK(a) || a.k === 'i32' || a.k === 'nan') && (isNumK(b) || b.k === 'i32' || b.k === 'nan')) t = this.strictEq(s, a, b);
        else {
          const x = this.toVal(s, a), y = this.toVal(s, b), kinds = ['Str', 'Num', 'VBool', 'Obj', 'Arr'];
          const sameKind = T.or(kinds.map((q) => T.and(T.is(q, x), T.is(q, y))));
          t = T.ite(T.or(this.nullish(a), this.nullish(b)), T.and(this.nullish(a), this.nullish(b)), T.ite(sameKind, this.strictEq(s, a, b), T.uf('looseEq', [x, y], 'Bool')));
        }
        return [norm(s, B(op === '==' ? t : T.not(t)))];
      }
      case '<': case '<=': case '>': case '>=': return this.compare(s, op, a, b, node);
      default: return this.arith(s, op, a, b, node);
    }
  },
  compare(s, op, a, b, node) {
    const outs = this.casesPrim(s, a).flatMap(([s1, x]) => this.casesPrim(s1, b).flatMap(([s2, y]) => {
      if (x.k === 'str' && y.k === 'str') {
        const lt = (p, q) => (p === q ? T.FALSE() : p.op === 'str' && q.op === 'str' ? T.bool(p.extra < q.extra) : T.cmp('<', rank(p), rank(q)));
        const rank = (p) => T.uf('strrank', [p], 'Real'); // strings embed into the reals, in order and injectively
        if (x.t !== y.t && !(x.t.op === 'str' && y.t.op === 'str')) s2 = s2.assume(T.eq(T.eq(rank(x.t), rank(y.t)), T.eq(x.t, y.t)));
        const le = (p, q) => T.not(lt(q, p));
        return [norm(s2, B(op === '<' ? lt(x.t, y.t) : op === '<=' ? le(x.t, y.t) : op === '>' ? lt(y.t, x.t) : le(y.t, x.t)))];
      }
      return this.then(this.toNum(s2, x), (s3, m) => this.then(this.toNum(s3, y), (s4, n) => {
        if (m.k === 'val' || n.k === 'val') {
          return this.splitNum(s4, m).flatMap(([s5, m2]) => this.splitNum(s5, n).map(([s6, n2]) => norm(s6, this.cmpNum(op, m2, n2))));
        }
        return [norm(s4, this.cmpNum(op, m, n))];
      }));
    }));
    return this.tryMerge(s, outs);
  },
  splitNum(s, v) { return v.k === 'val' ? this.cases(s, v, ['Num', 'NaN', 'PInf', 'NInf']).filter(([, w]) => w.k !== 'val') : [[s, v]]; },
  cmpNum(op, m, n) {
    if (m.k === 'nan' || n.k === 'nan') return B(false);
    if (m.k === 'inf' || n.k === 'inf') {
      const x = m.k === 'inf' ? (m.neg ? -1 : 1) : 0, y = n.k === 'inf' ? (n.neg ? -1 : 1) : 0;
      return B(op === '<' ? x < y : op === '>' ? x > y : op === '<=' ? x <= y : x >= y);
    }
    if (m.k === 'i32' && n.k === 'i32' && m.u === n.u) {
      const o = { '<': m.u ? 'bvult' : 'bvslt', '<=': m.u ? 'bvule' : 'bvsle', '>': m.u ? 'bvugt' : 'bvsgt', '>=': m.u ? 'bvuge' : 'bvsge' }[op];
      return B(T.app(o, [m.t, n.t], 'Bool'));
    }
    if (m.k === 'i32' && n.k === 'int' && n.t.op === 'int' && Number(n.t.extra) >= 0 && Number(n.t.extra) < 2 ** 31) return this.cmpNum(op, m, W(T.bv(Number(n.t.extra)), m.u));
    if (n.k === 'i32' && m.k === 'int' && m.t.op === 'int' && Number(m.t.extra) >= 0 && Number(m.t.extra) < 2 ** 31) return this.cmpNum(op, W(T.bv(Number(m.t.extra)), n.u), n);
    const mt = m.k === 'i32' ? this.i32ToInt(m) : m.t, nt = n.k === 'i32' ? this.i32ToInt(n) : n.t;
    return B(T.cmp(op, mt, nt));
  },
  i32ToInt(v) {
    const u = T.app('bv2nat', [v.t], 'Int');
    return v.u ? u : T.ite(T.app('bvsge', [v.t, T.bv(0)], 'Bool'), u, T.sub(u, T.int(4294967296)));
  },
  casesPrim(s, v) {
    if (v.k !== 'val') return [[s, v]];
    if (v.ty) {
      const only = v.ty.k;
      if (only === 'num') return [[s, R(T.un('Num', v.t))]];
    }
    return this.cases(s, v, ['Str', 'Num', 'Undef', 'Null', 'VBool', 'NaN', 'PInf', 'NInf']);
  },
  toNum(s, v) {
    switch (v.k) {
      case 'int': case 'num': case 'nan': case 'inf': case 'i32': return [norm(s, v)];
      case 'undef': return [norm(s, NANV)];
      case 'null': return [norm(s, I(0))];
      case 'bool': return [norm(s, I(T.ite(v.t, T.int(1), T.int(0))))];
      case 'str': {
        if (v.t.op === 'str') { const n = Number(v.t.extra); return [norm(s, Number.isNaN(n) ? NANV : n === Infinity || n === -Infinity ? INF(n < 0) : Number.isSafeInteger(n) ? I(n) : R(T.real(n)))]; }
        const t = T.uf('Number_str', [v.t], 'Val');
        return [norm(s.assume(T.or(T.is('Num', t), T.is('NaN', t), T.is('PInf', t), T.is('NInf', t))), VAL(t))];
      }
      case 'val': {
        const outs = this.cases(s, v, ['Num', 'NaN', 'PInf', 'NInf', 'Undef', 'Null', 'VBool', 'Str', 'I32']).flatMap(([s2, w]) => {
          if (w.k === 'val') { const t = T.uf('Number_val', [w.t], 'Val'); return [norm(s2.assume(T.or(T.is('Num', t), T.is('NaN', t), T.is('PInf', t), T.is('NInf', t))), VAL(t))]; }
          return this.toNum(s2, w);
        });
        return this.tryMerge(s, outs);
      }
      case 'ref': case 'obj': case 'arr': {
        const c = v.k === 'ref' ? s.get(v.id) : null;
        if (c?.date) return [norm(s, c.date)];
        return [norm(s, NANV)];
      }
      default: return [norm(s, NANV)];
    }
  },
  toInt32(s, v, node) { // -> V of kind i32
    return this.then(this.toNum(s, v), (s2, n) => {
      switch (n.k) {
        case 'i32': return [norm(s2, W(n.t))];
        case 'nan': case 'inf': return [norm(s2, W(T.bv(0)))];
        case 'int': if (n.t.op === 'int') return [norm(s2, W(T.bv(Number(BigInt.asUintN(32, BigInt(n.t.extra))))))]; if (n.wide) return [norm(s2, W(n.wide))]; return [norm(s2, W(T.mk('int2bv', [n.t], 'BV32')))];
        case 'num': if (n.wide) return [norm(s2, W(n.wide))]; return [norm(s2, W(T.uf('to_int32', [n.t], 'BV32')))];
      }
      if (n.k === 'val') return this.splitNum(s2, n).flatMap(([s3, m]) => { if (m.k === 'val') throw new Unsupported('32-bit conversion of a general value', node); return this.toInt32(s3, m, node); });
      throw new Unsupported('32-bit conversion of a general number ' + n.k, node);
    });
  },
  arith(s, op, a, b, node) {
    switch (op) {
      case '+': {
        if (a.k === 'str' || b.k === 'str') return [norm(s, S(T.sconcat(this.toStr(s, a), this.toStr(s, b))))];
        if (a.k === 'val' || b.k === 'val') {
          const num = (v) => isNumK(v) || (v.k === 'val' && v.ty?.k === 'num');
          if (!(num(a) && num(b))) return this.casesPrim(s, a).flatMap(([s1, x]) => this.casesPrim(s1, b).flatMap(([s2, y]) => {
            if (x.k === 'val' || y.k === 'val') return [norm(s2, S(T.sconcat(this.toStr(s2, x), this.toStr(s2, y))))];
            return this.arith(s2, op, x, y, node);
          }));
        }
        break;
      }
      case '|': case '&': case '^': case '<<': case '>>': case '>>>':
        // shifts of lengths and positions, which stay far below 2^31
        if ((op === '<<' || op === '>>') && a.k === 'int' && a.t.op !== 'int' && b.k === 'int' && b.t.op === 'int' && feasible([...s.terms(), T.cmp('<', a.t, T.int(0))]) === 'unsat') {
          this.assumptions.add('lengths and positions are below 2^29');
          const f = T.int(2 ** Number(b.t.extra)), w = a.wide ?? T.mk('int2bv', [a.t], 'BV32');
          return [norm(s, { k: 'int', t: op === '<<' ? T.arith('*', a.t, f) : T.app('div', [a.t, f], 'Int'), wide: T.app(op === '<<' ? 'bvshl' : 'bvashr', [w, T.bv(Number(b.t.extra))], 'BV32') })];
        }
        return this.then(this.toInt32(s, a, node), (s1, x) => this.then(this.toInt32(s1, b, node), (s2, y) => {
          const sh = () => (y.t.op === 'bv' ? T.bv(Number(y.t.extra) & 31) : T.app('bvand', [y.t, T.bv(31)], 'BV32'));
          const lit = x.t.op === 'bv' && y.t.op === 'bv';
          const f = { '|': (p, q) => p | q, '&': (p, q) => p & q, '^': (p, q) => p ^ q, '<<': (p, q) => p << q, '>>': (p, q) => p >> q, '>>>': (p, q) => p >>> q }[op];
          const r = lit ? T.bv(f(Number(x.t.extra) | 0, Number(y.t.extra)))
            : T.app({ '|': 'bvor', '&': 'bvand', '^': 'bvxor', '<<': 'bvshl', '>>': 'bvashr', '>>>': 'bvlshr' }[op], op.length > 1 ? [x.t, sh()] : [x.t, y.t], 'BV32');
          return [norm(s2, W(r, op === '>>>'))];
        }));
    }
    return this.then(this.toNum(s, a), (s1, x) => this.then(this.toNum(s1, b), (s2, y) => {
      const outs = [];
      for (const [s3, x2] of this.splitNum(s2, x)) for (const [s4, y2] of this.splitNum(s3, y)) outs.push(...this.arithNum(s4, op, x2, y2, node));
      return outs;
    }));
  },
  arithNum(s, op, x, y, node) {
    if (x.k === 'nan' || y.k === 'nan') return [norm(s, NANV)];
    if (x.k === 'i32' || y.k === 'i32') {
      // exact when the result is truncated to 32 bits afterwards (kept in 'wide')
      if (op === '+' || op === '-') {
        const bvOf = (v) => (v.k === 'i32' ? v.t : v.wide ? v.wide : v.t.op === 'int' ? T.bv(Number(BigInt.asUintN(32, BigInt(v.t.extra)))) : T.mk('int2bv', [v.t], 'BV32'));
        const it = (v) => (v.k === 'i32' ? this.i32ToInt(v) : v.t);
        if ((x.k === 'i32' || x.k === 'int') && (y.k === 'i32' || y.k === 'int')) return [norm(s, { k: 'int', t: T.arith(op, it(x), it(y)), wide: T.app(op === '+' ? 'bvadd' : 'bvsub', [bvOf(x), bvOf(y)], 'BV32') })];
      }
      if (op === '%' && x.k === 'i32' && x.u && y.k === 'int' && y.t.op === 'int' && Number(y.t.extra) > 0) return [norm(s, { ...W(T.app('bvurem', [x.t, T.bv(Number(y.t.extra))], 'BV32'), true) })];
      if (op === '/' && x.k === 'i32' && x.u && y.k === 'int' && y.t.op === 'int' && Number(y.t.extra) > 0) return [norm(s, { k: 'num', t: T.rdiv(T.toReal(this.i32ToInt(x)), T.toReal(y.t)), udiv: [x.t, T.bv(Number(y.t.extra))] })];
      const it = (v) => (v.k === 'i32' ? I(this.i32ToInt(v)) : v);
      return this.arithNum(s, op, it(x), it(y), node);
    }
    if (x.k === 'inf' || y.k === 'inf') {
      if (op === '+' || op === '-') {
        if (x.k === 'inf' && y.k === 'inf') return [norm(s, (x.neg === y.neg) === (op === '+') ? x : NANV)];
        return [norm(s, x.k === 'inf' ? x : INF(op === '-' ? !y.neg : y.neg))];
      }
      throw new Unsupported('arithmetic on infinities', node);
    }
    switch (op) {
      case '+': case '-': case '*': return [norm(s, R(T.toReal(T.arith(op, x.t, y.t))).k === 'int' ? R(T.toReal(T.arith(op, x.t, y.t))) : { k: x.k === 'int' && y.k === 'int' ? 'int' : 'num', t: T.arith(op, x.t, y.t) })];
      case '/': {
        const out = [];
        const yr = T.toReal(y.t);
        for (const [s2, z] of this.fork(s, T.eq(yr, T.real(0)))) {
          if (!z) { out.push(norm(s2, R(T.rdiv(x.t, yr)))); continue; }
          for (const [s3, zz] of this.fork(s2, T.eq(T.toReal(x.t), T.real(0)))) {
            if (zz) { out.push(norm(s3, NANV)); continue; }
            for (const [s4, neg] of this.fork(s3, T.cmp('<', T.toReal(x.t), T.real(0)))) out.push(norm(s4, INF(neg)));
          }
        }
        return out;
      }
      case '%': {
        if (y.k === 'int' && y.t.op === 'int' && Number(y.t.extra) > 0 && x.k === 'int') {
          // JS remainder keeps the dividend's sign
          const m = T.imod(x.t, y.t);
          return [norm(s, I(T.ite(T.cmp('>=', x.t, T.int(0)), m, T.sub(T.int(0), T.imod(T.sub(T.int(0), x.t), y.t)))))];
        }
        const t = T.uf('js_rem', [T.toReal(x.t), T.toReal(y.t)], 'Real');
        return [norm(s, R(t))];
      }
      case '**': {
        if (y.t.op === 'int' && Number(y.t.extra) === 2) return [norm(s, R(T.mul(x.t, x.t)))];
        return [norm(s, R(T.uf('js_pow', [T.toReal(x.t), T.toReal(y.t)], 'Real')))];
      }
    }
    throw new Unsupported(`operator ${op}`, node);
  },
  evalPrefix(e, s, scope) {
    switch (e.operator) {
      case SK.ExclamationToken: {
        const rs = this.evalCond(e.operand, s, scope);
        const outs = rs.map(([x, b]) => (x.c ? x : norm(x, B(!b))));
        return this.tryMerge(s, outs);
      }
      case SK.MinusToken: return this.then(this.evalE(e.operand, s, scope), (s1, v) => this.then(this.toNum(s1, v), (s2, n) => {
        if (n.k === 'int') return [norm(s2, n.t.op === 'int' ? I(-Number(n.t.extra)) : I(T.sub(T.int(0), n.t)))];
        if (n.k === 'num') return [norm(s2, n.t.op === 'real' ? R(T.real(-Number(n.t.extra))) : R(T.sub(T.real(0), n.t)))];
        if (n.k === 'inf') return [norm(s2, INF(!n.neg))];
        if (n.k === 'nan') return [norm(s2, n)];
        return this.arith(s2, '-', I(0), n, e);
      }));
      case SK.PlusToken: return this.then(this.evalE(e.operand, s, scope), (s1, v) => this.toNum(s1, v));
      case SK.PlusPlusToken: case SK.MinusMinusToken:
        return this.then(this.evalE(e.operand, s, scope), (s2, v) => this.then(this.arith(s2, e.operator === SK.PlusPlusToken ? '+' : '-', v, I(1), e), (s4, w) => this.then(this.assign(e.operand, s4, scope, w), (s5) => [norm(s5, w)])));
      case SK.TildeToken: return this.then(this.evalE(e.operand, s, scope), (s1, v) => this.then(this.toInt32(s1, v, e), (s2, w) => [norm(s2, W(T.app('bvnot', [w.t], 'BV32')))]));
    }
    throw new Unsupported('prefix operator', e);
  },

  // ---------------------------------------------------------------- assignment
  assign(target, s, scope, v) {
    return this.assignTo(strip(target), s, scope, (s2) => [norm(s2, v)]);
  },
  assignTo(t, s, scope, rhs) {
    if (ts.isIdentifier(t)) {
      return this.then(rhs(s), (s2, v) => {
        for (let id = scope; id;) {
          const c = s2.get(id);
          if (c.vars.has(t.text)) return [norm(this.declare(s2, id, t.text, v), v)];
          if (c.module && c.module.decls.has(t.text)) {
            const r = this.readModuleName(s2, c.module, t.text, t); // initialise the lazy pre-state
            return this.then(r, (s3) => [norm(this.declare(s3, id, t.text, v), v)]);
          }
          id = c.parent;
        }
        throw new Unsupported(`assignment to unknown ${t.text}`, t);
      });
    }
    if (ts.isPropertyAccessExpression(t)) {
      return this.then(this.evalE(t.expression, s, scope), (s1, o) => this.then(rhs(s1), (s2, v) => this.then(this.writeProp(s2, o, S(t.name.text), v, t), (s3) => [norm(s3, v)])));
    }
    if (ts.isElementAccessExpression(t)) {
      return this.then(this.evalE(t.expression, s, scope), (s1, o) => this.then(this.evalE(t.argumentExpression, s1, scope), (s2, k) => this.then(rhs(s2), (s3, v) => this.then(this.writeProp(s3, o, k, v, t), (s4) => [norm(s4, v)]))));
    }
    throw new Unsupported('assignment target', t);
  },
  writeProp(s, o, k, v, node) {
    switch (o.k) {
      case 'opt': return this.then(this.resolveOpt(s, o), (s2, w) => this.writeProp(s2, w, k, v, node));
      case 'undef': case 'null': return [throwO(s, S('TypeError: cannot set property'))];
      case 'ref': {
        const c = s.get(o.id);
        if (c.frozen) throw new Unsupported('write to an object already stored inside another structure', node);
        if (c.kind === 'obj') {
          if (c.ext && this.opts.extWrite) { const r = this.opts.extWrite(this, s, o, c, k, v, node); if (r) return r; }
          if (k.k === 'str' && k.t.op === 'str') {
            const name = k.t.extra;
            if (c.cls) {
              const setter = this.findMember(c.cls, c.m, name, 'set');
              if (setter) return this.then(this.callNode(s, setter.node, setter.m, o, [v], node, setter.cls), (s2) => [norm(s2, U)]);
              if (c.lazyCls && !c.over.has(name)) s = this.then(this.readProp(s, o, name, node), (x) => [norm(x, U)])[0].s; // materialise the pre-state
            }
            const c2 = s.get(o.id);
            if (c2.written && !c2.written.has(name)) c2.written.add(name);
            const over = new Map(c2.over);
            over.set(name, v);
            return [norm(s.set(o.id, { ...c2, over }), U)];
          }
          if (c.cls) throw new Unsupported('computed write to a class instance', node);
          const s2 = this.freeze(s, v);
          let d = this.dictOf(s2, o.id);
          let s3 = s2;
          for (const x of c.over.values()) if (x) s3 = this.freeze(s3, x);
          d = T.store(d, this.keyTerm(s3, k), this.toVal(s3, v));
          return [norm(s3.set(o.id, { ...c, dict: d, over: new Map() }), U)];
        }
        if (c.kind === 'arr') {
          if (k.k === 'str' && k.t.op === 'str' && k.t.extra === 'length') {
            if (v.k === 'int' && v.t.op === 'int' && v.t.extra === '0') return [norm(s.set(o.id, { ...c, els: [], t: undefined }), U)];
            throw new Unsupported('array length assignment', node);
          }
          if (c.els && k.k === 'int' && k.t.op === 'int' && Number(k.t.extra) <= c.els.length) {
            const els = [...c.els]; els[Number(k.t.extra)] = v;
            return [norm(s.set(o.id, { ...c, els }), U)];
          }
          if (k.k === 'int') {
            const q = this.seqOf(s, o.id), n = T.len(q), el = T.unit(this.toVal(s, v));
            const s1 = this.freeze(s, v);
            if (T.isT(T.eq(k.t, n)) || feasible([...s.terms(), T.not(T.eq(k.t, n))]) === 'unsat') return [norm(s1.set(o.id, { ...c, els: undefined, t: T.concat(q, el) }), U)];
            if (feasible([...s.terms(), T.not(T.and(T.cmp('<=', T.int(0), k.t), T.cmp('<', k.t, n)))]) === 'unsat') return [norm(s1.set(o.id, { ...c, els: undefined, t: T.concat(T.extract(q, T.int(0), k.t), el, T.extract(q, T.add(k.t, T.int(1)), T.sub(n, T.add(k.t, T.int(1))))) }), U)];
          }
          throw new Unsupported('array element assignment', node);
        }
        if (c.kind === 'bytes') return this.writeBytes(s, o, c, k, v, node);
        throw new Unsupported(`property write on ${c.kind}`, node);
      }
      case 'obj': case 'arr': case 'val': {
        // data reachable from the inputs: the frame condition forbids writes unless the contract owns it
        this.frameViolation(s, `write to input data`, node);
        throw new Unsupported('write to data owned by the caller (frame condition)', node);
      }
      case 'class': case 'global': case 'extname': case 'fn':
        if (o.k === 'global' && o.name === 'document' && this.cookieCell && k.k === 'str' && k.t.extra === 'cookie') {
          const s2 = this.traceEvent(s, 'document.cookie', [v]), c = s2.get(this.cookieCell.id);
          return [norm(s2.set(this.cookieCell.id, { ...c, over: new Map(c.over).set('cookie', S(T.fresh('cookie', 'String'))) }))];
        }
        if (this.opts.extWrite) { const r = this.opts.extWrite(this, s, o, null, k, v, node); if (r) return r; }
    }
    throw new Unsupported(`property write on ${o.k}`, node);
  },
  frameViolation() {},
  deleteProp(s, o, k, node) {
    switch (o.k) {
      case 'opt': return this.then(this.resolveOpt(s, o), (s2, w) => this.deleteProp(s2, w, k, node));
      case 'ref': {
        const c = s.get(o.id);
        if (c.frozen) throw new Unsupported('delete on a stored object', node);
        if (c.kind === 'obj' && !c.ext) {
          if (k.k === 'str' && k.t.op === 'str') { const over = new Map(c.over); over.set(k.t.extra, null); return [norm(s.set(o.id, { ...c, over }), U)]; }
          const d = T.store(this.dictOf(s, o.id), this.keyTerm(s, k), T.V.Absent());
          return [norm(s.set(o.id, { ...c, dict: d, over: new Map() }), U)];
        }
        break;
      }
      case 'undef': case 'null': return [throwO(s, S('TypeError: delete'))];
    }
    throw new Unsupported(`delete on ${o.k}`, node);
  },

  // ---------------------------------------------------------------- reads
  readKey(s, o, k, node) {
    if (k.k === 'str' && k.t.op === 'str') return this.readProp(s, o, k.t.extra, node);
    switch (o.k) {
      case 'opt': return this.then(this.resolveOpt(s, o), (s2, w) => this.readKey(s2, w, k, node));
      case 'undef': case 'null': return this.spec ? [norm(s, U)] : [throwO(s, S('TypeError: cannot read properties'))];
      case 'arr': return this.readIndex(s, o.t, k, o.ty, node);
      case 'str': return this.strIndex(s, o, k, node);
      case 'obj': return this.dictRead(s, o.t, this.keyTerm(s, k), this.indexType(o.ty));
      case 'enumobj': {
        const ms = o.decl.members;
        const t = this.keyTerm(s, k);
        let r = U, first = true, acc = T.V.Undef();
        for (const x of ms) acc = T.ite(T.eq(t, T.str(x.name.text)), this.toVal(s, this.enumValue(o, x)), acc);
        return [norm(s, this.fromVal(acc))];
      }
      case 'ref': {
        const c = s.get(o.id);
        if (c.kind === 'arr') {
          if (c.els) {
            if (k.k === 'int' && k.t.op === 'int') { const i = Number(k.t.extra); return [norm(s, i >= 0 && i < c.els.length ? c.els[i] : U)]; }
            if (k.k === 'int' || k.k === 'num') {
              let outs = [], rest = s;
              for (let i = 0; i < c.els.length; i++) {
                const next = [];
                for (const [s2, y] of this.fork(rest, T.eq(T.toReal(k.t), T.real(i)))) if (y) outs.push(norm(s2, c.els[i])); else next.push(s2);
                if (!next.length) { rest = null; break; }
                rest = next[0];
              }
              if (rest) outs.push(norm(rest, U));
              return this.tryMerge(s, outs);
            }
            throw new Unsupported('array index', node);
          }
          return this.readIndex(s, c.t, k, c.ty, node);
        }
        if (c.kind === 'bytes') return this.readBytes(s, c, k, node);
        if (c.kind === 'obj' && !c.cls && !c.ext) {
          if (c.dict.op === 'emptyDict' && [...c.over.values()].some((v) => v && (v.k === 'fn' || (v.k === 'ref' && (s.get(v.id).cls || s.get(v.id).ext))))) {
            // table of functions/services with a symbolic key
            const kt = this.keyTerm(s, k);
            const outs = [];
            let rest = [s];
            for (const [name, v] of c.over) {
              if (v === null) continue;
              const next = [];
              for (const st of rest) for (const [s2, y] of this.fork(st, T.eq(kt, T.str(name)))) if (y) outs.push(norm(s2, v)); else next.push(s2);
              rest = next;
            }
            for (const st of rest) outs.push(norm(st, U));
            return outs;
          }
          const d = this.dictOf(s, o.id);
          return this.dictRead(s, d, this.keyTerm(s, k), c.ty ? this.indexType(c.ty) : null);
        }
        if (c.ext && this.opts.extRead) { const r = this.opts.extRead(this, s, o, c, k, node); if (r) return r; }
        throw new Unsupported(`computed read on ${c.kind} ${c.ext ?? ''}`, node);
      }
      case 'val': {
        if (o.ty && ['obj', 'rec'].includes(o.ty.k)) return this.readKey(s, OBJ(T.un('Obj', o.t), o.ty), k, node);
        const num = k.k === 'int' || k.k === 'num';
        const outs = this.cases(s, o, ['Obj', 'Arr', 'Undef', 'Null', 'Str']).flatMap(([s2, w]) => {
          if (w.k === 'val') return [norm(s2, U)];
          return this.readKey(s2, w, k, node);
        });
        return this.tryMerge(s, outs);
      }
      case 'bool': case 'int': case 'num': return [norm(s, U)];
      case 'tuple': if (k.k === 'int' && k.t.op === 'int') return [norm(s, o.els[Number(k.t.extra)] ?? U)];
    }
    if (['global', 'extname', 'builtin'].includes(o.k) && k.k === 'str' && k.t.op === 'str') return this.readProp(s, o, k.t.extra, node);
    throw new Unsupported(`computed read on ${o.k}`, node);
  },
  indexType(ty) {
    if (!ty) return null;
    if (ty.k === 'rec') return { type: ty.val(), optional: true, index: true };
    if (ty.k === 'obj' && ty.index) return { type: ty.index(), optional: true, index: true };
    if (ty.k === 'obj' && ty.partial) return this.indexType(ty.partial);
    if (ty.k === 'union') { const c = ty.types.filter((x) => x.k === 'rec' || x.k === 'obj'); return c.length === 1 ? this.indexType(c[0]) : null; }
    return null;
  },
  // read of dictionary key (term), with property type pt
  dictRead(s, d, kt, pt) {
    const raw = T.select(d, kt);
    return this.typedRead(s, raw, pt);
  },
  typedRead(s, raw, pt) {
    const t = T.rd(raw);
    if (!pt) return [norm(s, this.fromVal(t))];
    let ty = pt.type;
    // the type of an index signature holds for the keys that are present
    if (pt.index && ['str', 'num', 'bool', 'arr', 'rec', 'obj'].includes(ty.k)) s = s.assume(T.or(T.is('Absent', raw), T.not(T.is('Undef', raw))));
    if (pt.optional && ty.k !== 'any') ty = unionType([ty, { k: 'undef' }]);
    const [s2, v] = this.typed(s, t, ty);
    return [norm(s2, v)];
  },
  readIndex(s, seq, k, ty, node) {
    if (k.k === 'val') return this.then(this.toNum(s, k), (s2, n) => (n.k === 'val' ? this.splitNum(s2, n).flatMap(([s3, m]) => this.readIndex(s3, seq, m, ty, node)) : this.readIndex(s2, seq, n, ty, node)));
    if (k.k !== 'int' && k.k !== 'num') return [norm(s, U)];
    let i = k.t;
    const out = [];
    const n = T.len(seq);
    if (k.k === 'num') {
      // an index that is not an integer reads nothing
      const isInt = T.eq(T.toReal(T.toInt(i)), i);
      for (const [s2, yes] of this.fork(s, isInt)) if (yes) out.push(...this.readIndex(s2, seq, I(T.toInt(i)), ty, node)); else out.push(norm(s2, U));
      return this.tryMerge(s, out);
    }
    const et = ty && ty.k === 'arr' ? (ty.tuple && i.op === 'int' && ty.tuple[Number(i.extra)] ? ty.tuple[Number(i.extra)]() : elemType(ty)) : ty ? elemType(ty) : anyType;
    if (ty?.tuple && i.op === 'int' && Number(i.extra) < ty.tuple.length) {
      const s2 = s.assume(T.eq(n, T.int(ty.tuple.length)));
      const [s3, v] = this.typed(s2, T.nth(seq, i), et);
      return [norm(s3, v)];
    }
    for (const [s2, ok] of this.fork(s, T.and(T.cmp('<=', T.int(0), i), T.cmp('<', i, n)))) {
      if (!ok) { out.push(norm(s2, U)); continue; }
      const [s3, v] = this.typedEl(s2, T.nth(seq, i), et);
      out.push(norm(s3, v));
    }
    return this.tryMerge(s, out);
  },
  // sequence elements are present values
  typedEl(s, t, et) {
    let s1 = T.isCtor(t) ? s : s.assume(T.not(T.is('Absent', t)));
    if (t.op === 'seq.nth') for (const f of this.elementFacts(t.args[0], t.args[1])) s1 = s1.assume(f);
    return this.typed(s1, t, et);
  },
  strIndex(s, o, k, node) {
    if (k.k === 'int' || k.k === 'num') {
      const i = k.k === 'int' ? k.t : T.toInt(k.t);
      const out = [];
      for (const [s2, ok] of this.fork(s, T.and(T.cmp('<=', T.int(0), i), T.cmp('<', i, T.sop('str.len', [o.t], 'Int'))))) out.push(norm(s2, ok ? S(T.sop('str.at', [o.t, i], 'String')) : U));
      return this.tryMerge(s, out);
    }
    if (k.k === 'str') return [norm(s, VAL(T.rd(T.uf('strProp', [o.t, k.t], 'Val'))))]; // a character at a numeric key, or nothing
    throw new Unsupported(`string index ${k.k}`, node);
  },
  readProp(s, o, name, node) {
    switch (o.k) {
      case 'opt': return this.then(this.resolveOpt(s, o), (s2, w) => this.readProp(s2, w, name, node));
      case 'undef': case 'null': return this.spec ? [norm(s, U)] : [throwO(s, S(`TypeError: cannot read properties of ${o.k === 'null' ? 'null' : 'undefined'} (reading '${name}')`))];
      case 'str':
        if (name === 'length') return [norm(s, I(T.sop('str.len', [o.t], 'Int')))];
        if (/^\d+$/.test(name)) return this.strIndex(s, o, I(Number(name)), node);
        if (!(name in String.prototype)) return [norm(s, U)];
        return [norm(s, { k: 'method', recv: o, name })];
      case 'arr':
        if (name === 'length') return [norm(s, I(T.len(o.t)))];
        if (/^\d+$/.test(name)) return this.readIndex(s, o.t, I(Number(name)), o.ty, node);
        if (!(name in Array.prototype)) return [norm(s, U)];
        return [norm(s, { k: 'method', recv: o, name })];
      case 'obj': {
        if (this.valueTypes && !(o.ty && propType(o.ty, name))) { const f = this.valueMethod(s, o, name); if (f) return [norm(s, f)]; }
        let pt = o.ty ? propType(o.ty, name) : null;
        if (!pt && this.valueTypes) for (const vt of this.valueTypes) pt = pt || propType(vt, name);
        return this.dictRead(s, o.t, T.str(name), pt);
      }
      case 'int': case 'num': case 'bool': case 'nan': case 'inf': case 'i32': case 'regex': if (o.k !== 'regex' && !(name in (o.k === 'bool' ? Boolean : Number).prototype)) return [norm(s, U)]; return [norm(s, o.k === 'regex' && name === 'source' ? S(T.uf('rx_source', [o.t], 'String')) : { k: 'method', recv: o, name })];
      case 'fn': if (name === 'name') return [norm(s, S(o.fn.name || ''))]; return [norm(s, { k: 'method', recv: o, name })];
      case 'prom': return [norm(s, { k: 'method', recv: o, name })];
      case 'enumobj': {
        const m = o.decl.members.find((x) => x.name.text === name);
        if (!m) return [norm(s, { k: 'method', recv: o, name })];
        return [norm(s, this.enumValue(o, m))];
      }
      case 'ns': {
        const r = lookupExport(o.m, name);
        if (!r || !r.decl) return [norm(s, U)];
        return this.readModuleName(s, r.module, r.name, node);
      }
      case 'class': return this.readStatic(s, o, name, node);
      case 'extname': case 'global': case 'builtin': return this.readExtName(s, o, name, node);
      case 'ref': return this.readRef(s, o, name, node);
      case 'spec': return this.readSpec(s, o, name, node);
      case 'tuple': if (/^\d+$/.test(name)) return [norm(s, o.els[Number(name)] ?? U)]; if (name === 'length') return [norm(s, I(o.els.length))]; break;
      case 'loopvars': {
        if (o.scope) { const f = this.lookupScope(o.st, o.scope, name); return [norm(s, f && !f[1].module ? f[1].vars.get(name) ?? U : U)]; }
        throw new Unsupported('loop variables of this kind of loop', o.node);
      }
      case 'val': {
        const ty = o.ty;
        if (this.valueTypes && !(ty && propType(ty, name))) { const f = this.valueMethod(s, o, name); if (f) return [norm(s, f)]; }
        if (ty && (ty.k === 'obj' || ty.k === 'rec')) return this.readProp(s, OBJ(T.un('Obj', o.t), ty), name, node);
        const arrOnly = this.spec && ['map', 'filter', 'some', 'every', 'forEach', 'flatMap', 'reduce', 'join', 'find', 'findIndex'].includes(name) ? ['Arr'] : this.spec && ['toLowerCase', 'toUpperCase', 'startsWith', 'endsWith', 'split', 'trim', 'replace', 'charCodeAt', 'substring'].includes(name) ? ['Str'] : this.spec && ['includes', 'indexOf', 'slice', 'concat'].includes(name) ? ['Arr', 'Str'] : null;
        const wanted = arrOnly ? arrOnly : name === 'length' ? ['Arr', 'Str', 'Undef', 'Null', 'Obj'] : ['Obj', 'Undef', 'Null', 'Arr', 'Str'];
        const outs = this.cases(s, o, wanted).flatMap(([s2, w]) => {
          // in a specification a method of another kind of value gives an arbitrary result
          if (arrOnly && !arrOnly.includes(w.k === 'arr' ? 'Arr' : w.k === 'str' ? 'Str' : '')) return [norm(s2, { k: 'fn', fn: { name, builtin: (ex, s3) => [norm(s3, VAL(T.fresh('arbitrary', 'Val')))] } })];
          if (w.k === 'val') return [norm(s2, name === 'length' || /^\d+$/.test(name) ? U : this.isMethodName(name) ? { k: 'method', recv: w, name } : U)];
          return this.readProp(s2, w, name, node);
        });
        return this.tryMerge(s, outs);
      }
    }
    throw new Unsupported(`read .${name} of ${o.k}`, node);
  },
  isMethodName(n) { return ['toString', 'toLowerCase', 'toUpperCase', 'valueOf', 'startsWith', 'includes', 'split', 'trim', 'filter', 'map', 'forEach'].includes(n); },
  enumValue(o, m) {
    let init = m.initializer;
    if (!init) return I(o.decl.members.indexOf(m));
    init = strip(init);
    if (ts.isStringLiteralLike(init)) return S(init.text);
    if (ts.isNumericLiteral(init)) return I(Number(init.text));
    throw new Unsupported('enum initializer', m);
  },
  readStatic(s, o, name, node) {
    for (const mem of o.decl.members) {
      if (!isStatic(mem) || mem.name?.getText() !== name) continue;
      if (ts.isMethodDeclaration(mem)) return [norm(s, this.closure(mem, this.moduleScope(s, o.m)[1], o, o.m, o.decl))];
      if (ts.isPropertyDeclaration(mem)) {
        const [s1, sid] = this.moduleScope(s, o.m);
        const key = `${o.decl.name.text}.${name}`;
        const sc = s1.get(sid);
        if (sc.vars.has(key)) return [norm(s1, sc.vars.get(key))];
        const ro = mem.modifiers?.some((x) => x.kind === SK.ReadonlyKeyword);
        if (ro && mem.initializer) return this.then(this.evalE(mem.initializer, s1, sid), (s2, v) => [norm(this.declare(s2, sid, key, v), v)]);
        const ty = mem.type ? resolveType(mem.type, o.m) : this.inferInitType(mem.initializer, o.m);
        const [s2, v] = this.symbolic(s1, key, ty);
        return [norm(this.lazyModuleVar(s2, sid, key, v), v)];
      }
    }
    if (name === 'prototype') return [norm(s, { k: 'builtin', name: 'prototype', decl: o.decl })];
    throw new Unsupported(`static member ${name}`, node);
  },
  // class member lookup through extends chains
  findMember(cls, m, name, what) {
    for (let c = cls, cm = m; c;) {
      for (const mem of c.members) {
        if (isStatic(mem) || !mem.name || mem.name.getText() !== name) continue;
        if (what === 'method' && ts.isMethodDeclaration(mem) && mem.body) return { node: mem, cls: c, m: cm };
        if (what === 'get' && ts.isGetAccessor(mem)) return { node: mem, cls: c, m: cm };
        if (what === 'set' && ts.isSetAccessor(mem)) return { node: mem, cls: c, m: cm };
        if (what === 'prop' && ts.isPropertyDeclaration(mem)) return { node: mem, cls: c, m: cm };
      }
      if (what === 'prop') {
        const ctor = c.members.find((x) => ts.isConstructorDeclaration(x) && x.body);
        for (const p of ctor?.parameters || []) if (p.modifiers?.length && p.name.getText() === name) return { node: p, cls: c, m: cm };
      }
      const b = this.baseClass(c, cm);
      if (!b) return null;
      c = b.decl; cm = b.m;
    }
    return null;
  },
  baseClass(c, m) {
    const h = (c.heritageClauses || []).find((x) => x.token === SK.ExtendsKeyword);
    if (!h) return null;
    const r = lookupExport(m, h.types[0].expression.getText()) || null;
    if (r && r.decl && r.decl.kind === 'class') return { decl: r.decl.node, m: r.module };
    return null;
  },
  readRef(s, o, name, node) {
    const c = s.get(o.id);
    if (!c) throw new Unsupported(`dangling reference reading .${name}`, node);
    switch (c.kind) {
      case 'arr':
        if (name === 'length') return [norm(s, I(c.els ? T.int(c.els.length) : T.len(c.t)))];
        if (/^\d+$/.test(name)) return this.readKey(s, o, I(Number(name)), node);
        return [norm(s, { k: 'method', recv: o, name })];
      case 'map': if (name === 'size') return [norm(s, I(this.mapSize(c)))]; return [norm(s, { k: 'method', recv: o, name })];
      case 'set': if (name === 'size') return [norm(s, I(this.setSize(c)))]; return [norm(s, { k: 'method', recv: o, name })];
      case 'bytes': if (name === 'length') return [norm(s, I(this.bytesLen(c)))]; return [norm(s, { k: 'method', recv: o, name })];
      case 'obj': break;
      default: throw new Unsupported(`read .${name} of ${c.kind}`, node);
    }
    if (c.over.has(name)) { const v = c.over.get(name); if (v !== null) return [norm(s, v)]; if (!c.cls) return [norm(s, U)]; return [norm(s, U)]; }
    if (c.cls) {
      const g = this.findMember(c.cls, c.m, name, 'get');
      if (g) return this.callNode(s, g.node, g.m, o, [], node, g.cls);
      const me = this.findMember(c.cls, c.m, name, 'method');
      if (me && !(o.super && false)) {
        const from = o.super ? this.superMember(c, node, name) || me : me;
        return [norm(s, this.closure(from.node, this.moduleScope(s, from.m)[1], REF(o.id), from.m, from.cls))];
      }
      if (c.lazyCls) {
        const p = this.findMember(c.cls, c.m, name, 'prop');
        if (p) {
          const init = p.node.initializer && strip(p.node.initializer);
          if (init && (ts.isArrowFunction(init) || ts.isFunctionExpression(init)) && ts.isPropertyDeclaration(p.node) && (p.node.modifiers?.some((x) => x.kind === SK.ReadonlyKeyword) || !p.node.type || true)) {
            // a function-valued field holds its declared initialiser
            const [s1, sid0] = this.moduleScope(s, p.m);
            const key = `thisScope:${o.id}`;
            let sid = this.lazy.get(key), s2 = s1;
            if (!sid) { sid = newId(); this.lazy.set(key, sid); this.initHeap.set(sid, { kind: 'scope', vars: new Map([['this', REF(o.id)]]), parent: sid0 }); }
            if (!s2.get(sid)) s2 = s2.set(sid, this.initHeap.get(sid));
            return [norm(s2, this.closure(init, sid, null, p.m, p.cls))];
          }
          let ty = p.node.type ? resolveType(p.node.type, p.m, p.m === c.m ? c.typeEnv : undefined) : this.inferInitType(init, p.m) ?? this.ctorParamType(p, name) ?? anyType;
          if (p.node.questionToken) ty = unionType([ty, { k: 'undef' }]);
          return this.lazyField(s, o, name, ty);
        }
        throw new Unsupported(`unknown field ${name} of ${c.cls.name?.text}`, node);
      }
      if (c.dict.op === 'emptyDict') return [norm(s, U)];
    }
    if (c.ext) return this.readExtProp(s, o, c, name, node);
    return this.dictRead(s, c.dict, T.str(name), c.ty ? propType(c.ty, name) : null);
  },
  superMember(c, node, name) {
    // the class whose body contains the super expression
    let n = node;
    while (n && !ts.isClassDeclaration(n)) n = n.parent;
    const m0 = c.m;
    for (let k = c.cls, m = m0; k;) {
      const b = this.baseClass(k, m);
      if (k === n) return b ? this.findMember(b.decl, b.m, name, 'method') : null;
      if (!b) return null;
      k = b.decl; m = b.m;
    }
    return null;
  },
  ctorParamType(p, name) { return null; },
  lazyField(s, o, name, ty) {
    const key = `${o.id}.${name}`;
    let v = this.lazy.get(key), s2 = s;
    if (!v) {
      const c0 = this.initHeap.get(o.id) ?? s.get(o.id);
      [s2, v] = this.symbolic(s, `${c0.path}.${name}`, ty);
      this.lazy.set(key, v);
      this.lazyFacts = this.lazyFacts || new Map();
      this.lazyFacts.set(key, s2.since(s.pc).map((p) => p.t));
    } else {
      if (v.k === 'ref' && !s2.get(v.id)) s2 = this.bring(s2, v.id);
      for (const f of this.lazyFacts?.get(key) || []) s2 = s2.assume(f);
    }
    const c = s2.get(o.id);
    const over = new Map(c.over);
    over.set(name, v);
    s2 = s2.set(o.id, { ...c, over });
    const ci = this.initHeap.get(o.id);
    if (ci && !ci.over.has(name)) { const oi = new Map(ci.over); oi.set(name, v); this.initHeap.set(o.id, { ...ci, over: oi }); }
    return [norm(s2, v)];
  },
  readExtProp(s, o, c, name, node) {
    if (this.opts.extRead) { const r = this.opts.extRead(this, s, o, c, S(name), node); if (r) return r; }
    const pt = c.ty ? propType(c.ty, name) : null;
    if (pt && pt.type.k !== 'fn' && !pt.method) return this.lazyField(s, o, name, pt.optional ? unionType([pt.type, { k: 'undef' }]) : pt.type);
    if (pt && pt.optional) { // an optional method: present or not
      return this.lazyField(s, o, name, unionType([pt.type, { k: 'undef' }]));
    }
    return [norm(s, { k: 'method', recv: o, name, ext: true, ty: pt?.type, optional: pt?.optional })];
  },
  hasKey(s, o, k, node) {
    switch (o.k) {
      case 'opt': return this.then(this.resolveOpt(s, o), (s2, w) => this.hasKey(s2, w, k, node));
      case 'obj': return [norm(s, B(T.not(T.is('Absent', T.select(o.t, this.keyTerm(s, k))))))];
      case 'ref': {
        const c = s.get(o.id);
        if (c.kind === 'obj' && !c.ext && !c.lazyCls) {
          if (k.k === 'str' && k.t.op === 'str' && c.over.has(k.t.extra)) return [norm(s, B(c.over.get(k.t.extra) !== null))];
          if (c.cls) return [norm(s, B(!!(k.k === 'str' && k.t.op === 'str' && this.findMember(c.cls, c.m, k.t.extra, 'method'))))];
          return [norm(s, B(T.not(T.is('Absent', T.select(this.dictOf(s, o.id), this.keyTerm(s, k))))))];
        }
        if (c.ext && k.k === 'str' && k.t.op === 'str') return [norm(s, B(T.cst(`has(${c.path}.${k.t.extra})`, 'Bool')))];
        break;
      }
      case 'val': {
        const outs = this.cases(s, o, ['Obj', 'Undef', 'Null']).flatMap(([s2, w]) => (w.k === 'obj' ? this.hasKey(s2, w, k, node) : w.k === 'val' ? [norm(s2, B(T.fresh('haskey', 'Bool')))] : [throwO(s2, S('TypeError: in'))]));
        return this.tryMerge(s, outs);
      }
      case 'global': case 'extname': return [norm(s, B(T.cst(`has(global.${k.t.extra})`, 'Bool')))];
    }
    throw new Unsupported(`in on ${o.k}`, node);
  },
  instanceOf(s, v, c, node) {
    if (v.k === 'opt') return this.then(this.resolveOpt(s, v), (s2, w) => this.instanceOf(s2, w, c, node));
    if (c.k === 'extname' || c.k === 'builtin') {
      const n = c.name;
      if (['undef', 'null', 'str', 'int', 'num', 'bool', 'nan', 'inf'].includes(v.k)) return [norm(s, B(false))];
      if (v.k === 'ref') {
        const ch = s.get(v.id);
        if (ch.kind === 'set') return [norm(s, B(n === 'Set'))];
        if (ch.kind === 'map') return [norm(s, B(n === 'Map'))];
        if (ch.kind === 'arr') return [norm(s, B(n === 'Array'))];
        if (ch.error) return [norm(s, B(n === 'Error' || ch.error === n))];
        if (ch.cls && n === 'Error') { for (let k = ch.cls, m = ch.m; k;) { const h = (k.heritageClauses || []).find((x) => x.token === SK.ExtendsKeyword); if (h && h.types[0].expression.getText() === 'Error') return [norm(s, B(true))]; const b = this.baseClass(k, m); if (!b) break; k = b.decl; m = b.m; } return [norm(s, B(false))]; }
        if (ch.cls) return [norm(s, B(false))];
      }
      return [norm(s, B(T.uf(`instanceof_${n}`, [this.toVal(s, v)], 'Bool')))];
    }
    if (c.k === 'class') {
      if (v.k === 'ref') {
        const ch = s.get(v.id);
        if (ch.cls) { for (let k = ch.cls, m = ch.m; k;) { if (k === c.decl) return [norm(s, B(true))]; const b = this.baseClass(k, m); if (!b) break; k = b.decl; m = b.m; } return [norm(s, B(false))]; }
        if (ch.ext === 'exn') return [norm(s, B(T.cst(`isa(${ch.path},${c.decl.name.text})`, 'Bool')))];
      }
      if (v.k === 'val') return [norm(s, B(T.uf(`instanceof_${c.decl.name.text}`, [v.t], 'Bool')))];
      return [norm(s, B(false))];
    }
    throw new Unsupported('instanceof', node);
  },
};
Object.assign(Exec.prototype, P);
