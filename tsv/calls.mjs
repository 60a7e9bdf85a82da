// Calls, classes, promises, contracts at call sites, specification functions.
import * as T from './terms.mjs';
import { ts, loadModule, resolveType, elemType, anyType, isStatic, isAsync, unionType, propType } from './front.mjs';
import { Exec, Unsupported, State, U, N, B, I, R, S, VAL, ARR, OBJ, REF, W, NANV, INF, norm, throwO, newId } from './exec.mjs';
import { parseTypeText } from './builtins.mjs';
import { strip } from './expr.mjs';
const SK = ts.SyntaxKind;

export const P = {
  evalCall(e, s, scope) {
    const callee = strip(e.expression);
    if (callee.kind === SK.SuperKeyword) return this.evalSuperCall(e, s, scope);
    if (callee.kind === SK.ImportKeyword) throw new Unsupported('dynamic import', e);
    const go = (s1, f, recv) => this.chainQ(e, s1, f, (s2, g) => this.then(this.list(e.arguments, s2, scope), (s3, args) => this.invoke(s3, g, recv, args, e)));
    if (ts.isPropertyAccessExpression(callee)) {
      return this.then(this.evalE(callee.expression, s, scope), (s1, o) => this.chainQ(callee, s1, o, (s2, w) => this.then(this.resolveOpt(s2, w), (s2b, w2) => {
        const recv = w2.super ? REF(w2.id) : w2;
        return this.then(this.readProp(s2b, w2, callee.name.text, callee), (s3, f) => go(s3, f, recv));
      })));
    }
    if (ts.isElementAccessExpression(callee)) {
      return this.then(this.evalE(callee.expression, s, scope), (s1, o) => this.chainQ(callee, s1, o, (s2, w) => this.then(this.evalE(callee.argumentExpression, s2, scope), (s3, k) => this.then(this.readKey(s3, w, k, callee), (s4, f) => go(s4, f, w)))));
    }
    return this.then(this.evalE(callee, s, scope), (s1, f) => go(s1, f, U));
  },
  invoke(s, f, recv, args, node) {
    switch (f.k) {
      case 'opt': return this.then(this.resolveOpt(s, f), (s2, g) => this.invoke(s2, g, recv, args, node));
      case 'fn': return this.callFn(s, f.fn, recv, args, node);
      case 'method': return f.ext ? this.callExt(s, f.recv, f.name, args, node, f.ty) : this.callMethod(s, f.recv, f.name, args, node);
      case 'extname': case 'builtin': return this.callGlobal(s, f, args, node);
      case 'ref': {
        const c = s.get(f.id);
        if (c.ext) return this.callExtFn(s, f, c, args, node);
        return [throwO(s, S('TypeError: not a function'))];
      }
      case 'undef': case 'null': case 'bool': case 'str': case 'int': case 'num': case 'arr': case 'obj':
        if (this.spec) return [norm(s, U)];
        return [throwO(s, S('TypeError: not a function'))];
      case 'val': {
        if (f.ty && f.ty.k === 'fn') { const [s2, r] = this.extFor(s, f.t, f.ty); return this.invoke(s2, r, recv, args, node); }
        if (f.ty && f.ty.k === 'union' && f.ty.types.some((t) => t.k === 'fn')) {
          const out = [];
          for (const [s2, n] of this.fork(s, this.nullish(f))) {
            if (n) out.push(throwO(s2, S('TypeError: not a function')));
            else { const [s3, r] = this.extFor(s2, f.t, f.ty.types.find((t) => t.k === 'fn')); out.push(...this.invoke(s3, r, recv, args, node)); }
          }
          return out;
        }
        if (this.opts.parsedAs && !this.spec && recv?.k === 'val') return [throwO(s, S('TypeError: not a function'))]; // parsed JSON holds no functions
        if (process.env.DEBUG) console.error("CALLEE", JSON.stringify(f), JSON.stringify(recv)); throw new Unsupported('call of an unknown value', node);
      }
      case 'class': return [throwO(s, S('TypeError: class constructor'))];
    }
    throw new Unsupported(`call of ${f.k}`, node);
  },
  callFn(s, fn, recv, args, node) {
    if (fn.builtin) return fn.builtin.call(fn, this, s, args, fn.thisV ?? recv, node);
    if (fn.bound) return this.callFn(s, fn.bound, fn.thisV, [...(fn.args || []), ...args], node);
    const n = fn.node;
    const thisV = ts.isArrowFunction(n) ? null : (fn.thisV && fn.thisV.k !== 'undef' ? fn.thisV : recv);
    const c = !this.inSpecModule(fn) && this.contractFor(n, this);
    if (c) return this.applyContract(s, c, fn, thisV, args, node);
    if (fn.m && fn.m.spec) { const r = this.callSpecRec(s, fn, args); if (r) return r; }
    return this.callBody(s, fn, thisV, args, node);
  },
  inSpecModule(fn) { return !!(fn.m && fn.m.spec); },
  callBody(s, fn, thisV, args, node) {
    const n = fn.node;
    const depth = this.stack.filter((x) => x === n).length;
    if (depth > 0 && !(fn.m && fn.m.spec && depth < 3)) {
      if (!this.concreteRecursion || depth > 8) throw new Unsupported(`recursive call of ${fn.name || 'function'} without a contract`, node);
    }
    if (this.stack.length > this.maxDepth) throw new Unsupported('call depth', node);
    this.stack.push(n);
    if (process.env.TSV_TRACE) console.error(' '.repeat(this.stack.length) + (fn.name || 'fn') + (this.spec ? ' [spec]' : '') + ' pc=' + (s.pc?.n ?? 0));
    const specCall = fn.m && fn.m.spec;
    if (specCall) this.spec++; else if (this.spec === 0 || true) this.covered.add(n);
    try {
      for (let id = fn.scope; id && !s.get(id) && this.initHeap.get(id); id = this.initHeap.get(id).parent) s = s.set(id, this.initHeap.get(id));
      const base = s;
      let [s1, sc] = this.newScope(s, fn.scope);
      if (thisV) s1 = this.declare(s1, sc, 'this', thisV);
      else if (!ts.isArrowFunction(n)) s1 = this.declare(s1, sc, 'this', U);
      let outs = this.bindParams(n, args, s1, sc);
      outs = this.then(outs, (s2) => {
        if (!n.body) throw new Unsupported('no body', node);
        if (ts.isBlock(n.body)) return this.execStmts(n.body.statements, s2, sc);
        return this.evalE(n.body, s2, sc).map((o) => (o.c === 'norm' ? { ...o, c: 'return' } : o));
      });
      outs = outs.map((o) => (o.c === 'return' ? norm(o.s, o.v) : o.c === 'norm' ? norm(o.s, U) : o));
      if (outs.some((o) => o.c === 'break' || o.c === 'continue')) throw new Unsupported('stray jump', n);
      if (isAsync(n)) outs = outs.map((o) => (o.c === 'norm' ? this.wrapAsync(o.s, o.v) : norm(o.s, { k: 'prom', st: 'err', v: o.v })));
      if (this.spec && specCall) outs = outs.map((o) => (o.c === 'throw' ? norm(o.s, U) : o));
      return this.mergeReturn(base, outs);
    } finally {
      this.stack.pop();
      if (specCall) this.spec--;
    }
  },
  wrapAsync(s, v) { return norm(s, v.k === 'prom' ? v : { k: 'prom', st: 'ok', v }); },
  mergeReturn(base, outs) {
    if (outs.filter((o) => o.c === 'norm').length < 2) return outs;
    if (this.opts.noMerge && !this.spec) return outs;
    const proms = outs.filter((o) => o.c === 'norm');
    if (proms.every((o) => o.v.k === 'prom' && o.v.st === 'ok')) {
      const m = this.tryMerge(base, outs.map((o) => (o.c === 'norm' ? norm(o.s, o.v.v) : o)));
      if (m.length < outs.length) return m.map((o) => (o.c === 'norm' ? norm(o.s, { k: 'prom', st: 'ok', v: o.v }) : o));
    }
    const m = this.tryMerge(base, outs);
    if (m !== outs) return m;
    // impure: join states whose results can be joined
    if (this.opts.noJoin) return outs;
    const ns = outs.filter((o) => o.c === 'norm'), rest = outs.filter((o) => o.c !== 'norm');
    const tagged = ns.map((o) => { const id = newId(); return { o, id }; });
    const RID = -1;
    const sts = ns.map((o) => { const s2 = new State(new Map(o.s.heap), o.s.pc); s2.heap.set(RID, { kind: 'scope', vars: new Map([['r', o.v]]), parent: null }); return s2; });
    const b2 = new State(new Map(base.heap), base.pc);
    b2.heap.set(RID, { kind: 'scope', vars: new Map([['r', U]]), parent: null });
    if (!sts.every((x) => this.descends(b2, x))) return outs;
    const j = this.joinStates(b2, sts);
    if (!j) return outs;
    return [...j.map((s2) => { const v = s2.heap.get(RID).vars.get('r'); s2.heap.delete(RID); return norm(s2, v); }), ...rest];
  },
  bindParams(n, args, s, sc) {
    let outs = [norm(s, U)];
    const hasSpread = args.findIndex((a) => a.k === 'spread');
    n.parameters.forEach((p, i) => {
      if (ts.isIdentifier(p.name) && p.name.text === 'this') return;
      outs = this.then(outs, (s1) => {
        if (p.dotDotDotToken) {
          return this.then(this.mkArray(s1, args.slice(i)), (s2, r) => this.bind(p.name, r, s2, sc));
        }
        if (hasSpread >= 0 && hasSpread <= i) {
          return this.then(this.readIndex(s1, args[hasSpread].t, I(i - hasSpread), undefined, p), (s2, v) => this.withDefault(p, v, s2, sc));
        }
        return this.withDefault(p, i < args.length ? args[i] : U, s1, sc);
      });
    });
    return outs;
  },
  callNode(s, node, m, thisV, args, at, cls) {
    const [s1, sid] = this.moduleScope(s, m);
    const fn = { node, scope: sid, thisV, m, cls, name: node.name?.getText?.() ?? '' };
    return this.callFn(s1, fn, thisV, args, at);
  },

  // ---------------------------------------------------------------- construction
  evalNew(e, s, scope) {
    return this.then(this.evalE(e.expression, s, scope), (s1, c) => this.then(this.list(e.arguments || [], s1, scope), (s2, args) => {
      if (c.k === 'class') return this.construct(s2, c, args, e);
      if (c.k === 'extname' || c.k === 'builtin') return this.newGlobal(s2, c, args, e);
      if (c.k === 'fn' && c.fn.builtin) return c.fn.builtin.call(c.fn, this, s2, args, U, e);
      if (c.k === 'method' && c.ext) return this.callExt(s2, c.recv, c.name, args, e, c.ty);
      throw new Unsupported('new on a dynamic value', e);
    }));
  },
  construct(s, c, args, node) {
    const key = this.overrides['new ' + c.decl.name.text];
    if (key) return key(this, s, args, U, node);
    const con = this.contractFor(c.decl, this);
    if (con) return this.applyContract(s, con, { node: c.decl, m: c.m, name: c.decl.name.text }, U, args, node);
    const [s1, ref] = this.alloc(s, { kind: 'obj', cls: c.decl, m: c.m, dict: T.emptyDict(), over: new Map() });
    const isValue = (this.valueTypes || []).some((t) => t.valueClass.decl === c.decl);
    return this.then(this.runCtor(s1, c.decl, c.m, ref, args, node), (s2) => {
      if (!isValue) return [norm(s2, ref)];
      const ch = s2.get(ref.id);
      const s3 = s2.set(ref.id, { ...ch, cls: undefined, m: undefined });
      return [norm(s3, OBJ(this.dictOf(s3, ref.id), this.valueClassType(c.decl, c.m)))];
    });
  },
  // an immutable class (every field readonly) whose instances are modelled as plain values
  valueClassType(decl, m) {
    const key = 'vct:' + decl.name.text;
    if (this.lazy.has(key)) return this.lazy.get(key);
    const props = new Map();
    for (const mem of decl.members) {
      if (!ts.isPropertyDeclaration(mem) || isStatic(mem)) continue;
      if (!mem.modifiers?.some((x) => x.kind === SK.ReadonlyKeyword)) throw new Unsupported('value class with a mutable field', mem);
      props.set(mem.name.text, { node: mem, optional: !!mem.questionToken, type: () => (mem.type ? resolveType(mem.type, m) : anyType) });
    }
    const ty = { k: 'obj', props, index: null, service: false, name: decl.name.text, valueClass: { decl, m } };
    this.lazy.set(key, ty);
    (this.valueTypes ||= []).push(ty);
    return ty;
  },
  valueMethod(s, o, name) {
    for (const ty of this.valueTypes || []) {
      const me = this.findMember(ty.valueClass.decl, ty.valueClass.m, name, 'method');
      if (me) return this.closure(me.node, this.moduleScope(s, me.m)[1], OBJ(o.k === 'obj' ? o.t : T.un('Obj', o.t), ty), me.m, me.cls);
    }
    return null;
  },
  ctorOf(decl) { return decl.members.find((x) => ts.isConstructorDeclaration(x) && x.body); },
  runCtor(s, decl, m, ref, args, node) {
    const base = this.baseClass(decl, m);
    const ctor = this.ctorOf(decl);
    const [s0, sid] = this.moduleScope(s, m);
    const isDerived = (decl.heritageClauses || []).some((h) => h.token === SK.ExtendsKeyword);
    if (!ctor) {
      let outs = [norm(s0, U)];
      if (isDerived) outs = base ? this.runCtor(s0, base.decl, base.m, ref, args, node) : this.extBaseCtor(s0, decl, ref, args, node);
      return this.then(outs, (s1) => this.initFields(s1, decl, m, ref, sid));
    }
    let outs = [norm(s0, U)];
    if (!isDerived) outs = this.initFields(s0, decl, m, ref, sid);
    return this.then(outs, (s1) => {
      this.stack.push(ctor);
      this.covered.add(ctor);
      try {
        let [s2, sc] = this.newScope(s1, sid);
        s2 = this.declare(s2, sc, 'this', ref);
        const c = s2.get(sc);
        s2 = s2.set(sc, { ...c, ctorOf: { decl, m, base, ref, sid } });
        let o2 = this.bindParams(ctor, args, s2, sc);
        o2 = this.then(o2, (s3) => {
          let s4 = s3;
          if (!isDerived) s4 = this.paramProps(s4, ctor, ref, sc);
          return this.execStmts(ctor.body.statements, s4, sc);
        });
        const res = o2.map((o) => (o.c === 'return' ? norm(o.s, U) : o));
        return this.mergeReturn(s1, res);
      } finally { this.stack.pop(); }
    });
  },
  paramProps(s, ctor, ref, sc) {
    for (const p of ctor.parameters) if (p.modifiers?.length) {
      const c = s.get(ref.id);
      const over = new Map(c.over);
      over.set(p.name.text, s.get(sc).vars.get(p.name.text));
      s = s.set(ref.id, { ...c, over });
    }
    return s;
  },
  initFields(s, decl, m, ref, sid) {
    let [s1, sc] = this.newScope(s, sid);
    s1 = this.declare(s1, sc, 'this', ref);
    let outs = [norm(s1, U)];
    for (const mem of decl.members) {
      if (!ts.isPropertyDeclaration(mem) || isStatic(mem) || !mem.initializer) continue;
      outs = this.then(outs, (s2) => this.then(this.evalE(mem.initializer, s2, sc), (s3, v) => {
        const c = s3.get(ref.id);
        const over = new Map(c.over);
        over.set(mem.name.text, v);
        return [norm(s3.set(ref.id, { ...c, over }), U)];
      }));
    }
    return outs;
  },
  extBaseCtor(s, decl, ref, args, node) {
    const h = (decl.heritageClauses || []).find((x) => x.token === SK.ExtendsKeyword);
    const name = h.types[0].expression.getText();
    if (name === 'Error' || /Error$/.test(name)) {
      const c = s.get(ref.id);
      const over = new Map(c.over);
      if (args[0]) over.set('message', args[0]);
      return [norm(s.set(ref.id, { ...c, over, error: 'Error' }), U)];
    }
    throw new Unsupported(`external base class ${name}`, node);
  },
  evalSuperCall(e, s, scope) {
    let info = null;
    for (let id = scope; id;) { const c = s.get(id); if (c.ctorOf) { info = { ...c.ctorOf, sc: id }; break; } id = c.parent; }
    if (!info) throw new Unsupported('super call outside a constructor', e);
    return this.then(this.list(e.arguments, s, scope), (s1, args) => {
      const outs = info.base ? this.runCtor(s1, info.base.decl, info.base.m, info.ref, args, e) : this.extBaseCtor(s1, info.decl, info.ref, args, e);
      return this.then(outs, (s2) => this.then(this.initFields(s2, info.decl, info.m, info.ref, info.sid), (s3) => [norm(this.paramProps(s3, this.ctorOf(info.decl), info.ref, info.sc), U)]));
    });
  },

  // ---------------------------------------------------------------- promises (no interleaving at awaits)
  awaitV(s, v, node) {
    return this.then(this.resolveOpt(s, v), (s1, w) => {
      if (w.k === 'prom') {
        if (w.st === 'ok') return w.v.k === 'prom' ? this.awaitV(s1, w.v, node) : [norm(s1, w.v)];
        if (w.st === 'err') return [throwO(s1, w.v)];
        if (w.st === 'cell') {
          const c = s1.get(w.id);
          if (c.st === 'ok') return this.awaitV(s1, c.v, node);
          if (c.st === 'err') return [throwO(s1, c.v)];
          throw new Unsupported('await of a promise that nothing settles', node);
        }
      }
      return [norm(s1, w)];
    });
  },
  promMethod(s, p, name, args, node) {
    const settle = (s1) => {
      if (p.st === 'cell') { const c = s1.get(p.id); return c.st === 'pending' ? null : c; }
      return p;
    };
    const q = settle(s);
    const wrap = (outs) => outs.map((o) => (o.c === 'norm' ? this.wrapAsync(o.s, o.v) : o.c === 'throw' ? norm(o.s, { k: 'prom', st: 'err', v: o.v }) : o));
    if (!q) { // pending: the callback is registered, not run
      return [norm(this.traceEvent(s, 'promise.' + name, args), { k: 'prom', st: 'cell', id: p.id })];
    }
    if (name === 'then') {
      if (q.st === 'ok') return args[0] && args[0].k !== 'undef' ? wrap(this.invoke(s, args[0], U, [q.v], node)) : [norm(s, p)];
      return args[1] && args[1].k !== 'undef' ? wrap(this.invoke(s, args[1], U, [q.v], node)) : [norm(s, p)];
    }
    if (name === 'catch') return q.st === 'err' ? wrap(this.invoke(s, args[0], U, [q.v], node)) : [norm(s, p)];
    if (name === 'finally') return this.then(this.invoke(s, args[0], U, [], node), (s2) => [norm(s2, p)]);
    throw new Unsupported(`promise.${name}`, node);
  },

  // ---------------------------------------------------------------- trace of external effects
  traceEvent(s, what, args, fn, fnRef) {
    const c = s.get(this.traceId);
    let s2 = s;
    for (const a of args) s2 = this.freeze(s2, a);
    const [s3, arr] = this.alloc(s2, args.some((a) => a.k === 'spread') ? { kind: 'arr', t: T.concat(args.map((a) => (a.k === 'spread' ? a.t : T.unit(this.toVal(s2, a))))) } : { kind: 'arr', els: args });
    const [s4, ev] = this.alloc(s3, { kind: 'obj', dict: T.emptyDict(), over: new Map([['call', S(fn ? '?' : what)], ['args', arr], ...(fn ? [['fn', VAL(fn)]] : fnRef ? [['fn', fnRef]] : [])]) });
    if (c.els) return s4.set(this.traceId, { ...c, els: [...c.els, ev] });
    return s4.set(this.traceId, { ...c, t: T.concat(c.t, T.unit(this.toVal(s4, ev))) });
  },
  // a call of a method of an external service
  callExt(s, recv, name, args, node, ty) {
    if (recv.k === 'opt') return this.then(this.resolveOpt(s, recv), (s2, w) => this.callExt(s2, w, name, args, node, ty));
    const c = recv.k === 'ref' ? s.get(recv.id) : null;
    const tag = `${c?.ext}.${name}`;
    if (c?.ext === 'Storage' && c.box) return this.storageCall(s, c, name, args, node);
    const h = this.externals[tag] ?? this.externals['*.' + name];
    if (h) return h(this, s, args, recv, node);
    const what = `${c?.path ?? '?'}.${name}`;
    return this.extResult(this.traceEvent(s, what, args), what, ty, args, node, tag);
  },
  callExtFn(s, f, c, args, node) {
    const h = c.handler ?? this.externals[`fn:${c.path}`] ?? this.externals['fn:' + (c.path || '').split('.').pop()];
    if (h) return h(this, s, args, f, node);
    return this.extResult(this.traceEvent(s, c.path, args, c.val, f), c.val ? 'called' : c.path, c.ty, args, node, 'fn');
  },
  // ---------------------------------------------------------------- browser environment (contract option `env`)
  // env: { local, session: true | 'full' (writing may throw) | false (absent), location: true | false | 'maybe' }
  setupEnv(s, env) {
    const out = {};
    const props = { ...(this.opts.globalProps || {}) };
    for (const [nm, key] of [['local', 'localStorage'], ['session', 'sessionStorage']]) {
      if (env[nm] === undefined) continue;
      if (!env[nm]) { props['*.' + key] = U; continue; }
      let box, st;
      const ty = parseTypeText('Record<string, string>', this.opts.targetModule ?? null);
      [s, box] = this.allocInit(s, { kind: 'obj', dict: T.cst('env.' + nm, 'Dict'), over: new Map(), ty, path: 'env.' + nm });
      [s, st] = this.allocInit(s, { kind: 'obj', ext: 'Storage', dict: T.emptyDict(), over: new Map(), box: box.id, full: env[nm] === 'full', path: key });
      const k = T.fresh('k', 'String'), d = T.cst('env.' + nm, 'Dict');
      s = s.assume(this.quant(k, T.or(T.is('Absent', T.select(d, k)), T.is('Str', T.select(d, k)))));
      props['*.' + key] = st;
      out[nm] = box;
    }
    if (env.location !== undefined) {
      let loc;
      const text = '{ href: string; hostname: string; search: string; pathname: string; origin: string; hash: string; host: string; protocol: string }';
      [s, loc] = env.location ? this.symbolic(s, 'location', parseTypeText(env.location === 'maybe' ? text + ' | undefined' : text, this.opts.targetModule ?? null)) : [s, U];
      props['*.location'] = loc;
      out.location = loc;
    }
    if (env.cookies) {
      // document.cookie: reading gives the cookies of the page, writing (traced) leaves others that are not known
      let cell;
      [s, cell] = this.allocInit(s, { kind: 'obj', dict: T.emptyDict(), over: new Map([['cookie', S(T.cst('document.cookie', 'String'))]]), ty: parseTypeText('{ cookie: string }', this.opts.targetModule ?? null), path: 'document' });
      props['document.cookie'] = (x, st, o, node) => x.readProp(st, cell, 'cookie', node);
      this.cookieCell = cell;
      out.document = cell;
    }
    this.opts.globalProps = props;
    const map = new Map(Object.entries(out));
    return [s, { k: 'spec', kind: 'args', map }];
  },
  storageCall(s, c, name, args, node) {
    const key = () => this.toStr(s, args[0] ?? U);
    const d = () => this.dictOf(s, c.box);
    const put = (s2, t) => s2.set(c.box, { ...s2.get(c.box), dict: t, over: new Map() });
    switch (name) {
      case 'getItem': {
        const t = T.select(d(), key());
        return this.tryMerge(s, this.fork(s, T.is('Absent', t)).map(([s2, a]) => (a ? norm(s2, N) : norm(s2.assume(T.is('Str', t)), S(T.un('Str', t))))));
      }
      case 'setItem': {
        const done = (s2) => norm(put(s2, T.store(this.dictOf(s2, c.box), key(), T.ctor('Str', this.toStr(s2, args[1] ?? U)))), U);
        if (!c.full) return [done(s)];
        return this.fork(s, T.fresh('full', 'Bool')).map(([s2, f]) => (f ? throwO(s2, S('QuotaExceededError')) : done(s2)));
      }
      case 'removeItem': return [norm(put(s, T.store(d(), key(), T.V.Absent())), U)];
      case 'clear': return [norm(put(s, T.emptyDict()), U)];
    }
    throw new Unsupported(`storage method ${name}`, node);
  },
  // arbitrary result of the declared type; may throw when the contract says so
  extResult(s, what, ty, args, node, tag) {
    let rt = anyType;
    const sig = ty && ty.node;
    if (sig && sig.type) rt = resolveType(sig.type, ty.m);
    const out = [];
    const mk = (s2, t, nm) => {
      if (t.k === 'undef') return [s2, U];
      if (t.k === 'promise') { const [s3, v] = mk(s2, t.el ? t.el() : anyType, nm); return [s3, { k: 'prom', st: 'ok', v }]; }
      if (t.k === 'any') { const c = T.fresh(nm, 'Val'); return [s2.assume(T.not(T.is('Absent', c))), VAL(c)]; }
      const c = T.fresh(nm, 'Val');
      if (['str', 'num', 'bool', 'lit', 'null', 'arr', 'rec', 'union'].includes(t.k) || (t.k === 'obj' && !t.service)) return this.typed(s2.assume(T.not(T.is('Absent', c))), c, t);
      return this.symbolic(s2, `${nm}#${T.freshMark()}`, t);
    };
    const nm = 'r_' + what;
    const throwing = this.opts.throwing && this.opts.throwing(what, tag);
    if (throwing) {
      const b = T.fresh('throws', 'Bool');
      for (const [s2, th] of this.fork(s, b)) {
        if (th) {
          const [s3, ex] = this.allocInit(s2, { kind: 'obj', ext: 'exn', dict: T.emptyDict(), over: new Map(), path: `exn${T.freshMark()}`, ty: { k: 'obj', props: new Map(), service: true } });
          const s4 = this.traceResult(s3, ex, true);
          if (rt.k === 'promise') out.push(norm(s4, { k: 'prom', st: 'err', v: ex })); else out.push(throwO(s4, ex));
        } else { const [s3, v] = mk(s2, rt, nm); out.push(norm(this.traceResult(s3, v), v)); }
      }
      return out;
    }
    const [s2, v] = mk(s, rt, nm);
    return [norm(this.traceResult(s2, v), v)];
  },
  // the last event of the trace carries what the call returned (or threw)
  traceResult(s, v, thrown) {
    const c = s.get(this.traceId);
    const w = v.k === 'prom' ? v.v : v;
    if (!w || c.els || !['bool', 'undef', 'null', 'str', 'int', 'num', 'val', 'nan', 'obj', 'arr', 'inf', 'ref'].includes(w.k)) return s;
    const last = c.t.op === 'seq.++' ? c.t.args[c.t.args.length - 1] : c.t;
    if (last.op !== 'seq.unit' || last.args[0].op !== 'Obj') return s;
    const ev = T.unit(T.ctor('Obj', T.store(last.args[0].args[0], T.str(thrown ? 'error' : 'result'), this.toVal(s, w))));
    return s.set(this.traceId, { ...c, t: last === c.t ? ev : T.concat(...c.t.args.slice(0, -1), ev) });
  },

  // ---------------------------------------------------------------- contracts at call sites
  applyContract(s, c, fn, thisV, args, node) {
    // bind arguments by the contract's parameter names
    const bindings = this.contractArgs(s, c, fn, thisV, args);
    let s1 = s;
    if (c.requires && this.spec === 0) {
      for (const [nm, st2, t] of this.evalSpecFn(c.requires, bindings, s1)) this.addObligation(`precondition '${nm}' of ${c.name} at the call`, st2, t, node);
    }
    if (c.apply) return c.apply(this, s1, args, thisV, node, bindings);
    // the call is an event: its effects are specified by the contract of the function itself
    if (c.event && c.havoc) return this.extResult(this.traceEvent(s1, c.event, args), c.event, { node: fn.node, m: fn.m }, args, node, c.event);
    if (c.event) return [norm(this.traceEvent(s1, c.event, args), U)];
    if (c.opaque) {
      // an uninterpreted function of the arguments, with the contract's facts
      const vals = this.opaqueArgs(s1, c, thisV, args);
      const sort = c.opaque === true ? 'Val' : c.opaque;
      const t0 = T.uf('fn_' + c.name.replace(/[^A-Za-z0-9_]/g, '_'), vals, sort), t = sort === 'Val' ? T.rd(t0) : t0;
      let v = sort === 'Bool' ? B(t) : sort === 'String' ? S(t) : sort === 'Int' ? I(t) : sort === 'Seq' ? ARR(t, typeof c.resultType === 'string' ? parseTypeText(c.resultType, c.resultTypeIn ? loadModule(c.resultTypeIn) : fn.m) : c.resultType) : sort === 'BV32' ? W(t, c.unsigned) : VAL(t);
      if (sort === 'Int' && c.range) s1 = s1.assume(T.and(T.cmp('<=', T.int(c.range[0]), t), T.cmp('<=', t, T.int(c.range[1]))));
      if (sort === 'Val') {
        const rt = (typeof c.resultType === 'string' ? parseTypeText(c.resultType, c.resultTypeIn ? loadModule(c.resultTypeIn) : fn.m) : c.resultType) ?? (fn.node?.type ? resolveType(fn.node.type, fn.m) : null);
        if (rt) { const [s2, v2] = this.typed(s1, t, rt); s1 = s2; v = v2; }
        if (c.fresh && v.k === 'arr' && !this.spec) { const id = newId(); return [norm(s1.set(id, { kind: 'arr', t: v.t, ty: rt }), REF(id))]; }
        if (c.fresh && v.k === 'obj' && !this.spec) { const id = newId(); return [norm(s1.set(id, { kind: 'obj', dict: v.t, over: new Map(), ty: rt }), REF(id))]; }
      }
      return [norm(s1, v)];
    }
    if (c.model) {
      const r = this.evalSpecValue(c.model, bindings, s1);
      return [norm(this.adoptAll(s1), r)];
    }
    throw new Unsupported(`contract of ${c.name} cannot be used at calls`, node);
  },
  opaqueArgs(s, c, thisV, args) {
    const n = c.arity ?? args.length;
    const out = [];
    if (c.selfArg) out.push(this.toVal(s, thisV));
    for (let i = 0; i < n; i++) out.push(this.toVal(s, args[i] ?? U));
    return out;
  },
  contractArgs(s, c, fn, thisV, args) {
    const a = new Map();
    const params = (ts.isClassDeclaration(fn.node) ? this.ctorOf(fn.node)?.parameters : fn.node.parameters) || [];
    params.forEach((p, i) => { if (ts.isIdentifier(p.name)) a.set(p.name.text, args[i] ?? U); });
    args.forEach((v, i) => a.set(String(i), v));
    return { self: thisV ?? U, args: { k: 'spec', kind: 'args', map: a } };
  },
  adoptAll(s) { return this.lastSpecState ? this.adopt(s, this.lastSpecState) : s; },

  // ---------------------------------------------------------------- specification functions
  specFnOf(f) {
    // a JS function of a contract module -> closure over that module's scope
    this.specFns = this.specFns || new Map();
    if (this.specFns.has(f)) return this.specFns.get(f);
    const text = f.toString();
    const m = f.__module ? loadModule(f.__module) : this.opts.specModule;
    if (m) m.spec = true;
    let src = text;
    if (!/^(async\s+)?(function|\(|[A-Za-z_$][\w$]*\s*=>)/.test(src)) src = 'function ' + src; // method shorthand
    const sf = ts.createSourceFile('spec.ts', `(${src})`, ts.ScriptTarget.ES2020, true, ts.ScriptKind.TS);
    const node = strip(sf.statements[0].expression);
    const r = { node, m };
    this.specFns.set(f, r);
    return r;
  },
  specClosure(s, f) {
    const { node, m } = this.specFnOf(f);
    const [s1, sid] = this.moduleScope(s, m);
    return [s1, { node, scope: sid, thisV: null, m, name: 'spec' }];
  },
  // evaluate spec function on named values -> V (state in lastSpecState)
  evalSpecValue(f, bind, s) {
    const [s1, fn] = this.specClosure(s, f);
    const [s2, arg] = this.specArg(s1, bind);
    this.spec++;
    const savedStack = this.stack; this.stack = [];
    try {
      const outs = this.callBody(s2, fn, null, [arg], fn.node);
      const ns = outs.filter((o) => o.c === 'norm');
      if (ns.length === 0) throw new Unsupported('specification does not evaluate', fn.node);
      if (outs.some((o) => o.c !== 'norm')) throw new Unsupported('specification may throw', fn.node);
      if (ns.length > 1) throw new Unsupported(`specification does not merge to a single value (${ns.map((o) => o.v.k).join(',')})`, fn.node);
      this.lastSpecState = ns[0].s;
      return ns[0].v;
    } finally { this.spec--; this.stack = savedStack; }
  },
  specArg(s, bind) {
    const over = new Map();
    for (const [k, v] of Object.entries(bind)) over.set(k, v);
    const [s2, r] = this.alloc(s, { kind: 'obj', dict: T.emptyDict(), over });
    return [s2, r];
  },
  // -> [[name, state, term], ...]
  evalSpecFn(f, bind, s) {
    const v = this.evalSpecValue(f, bind, s);
    const st = this.lastSpecState;
    if (v.k === 'ref' && st.get(v.id).kind === 'obj') {
      const c = st.get(v.id);
      return [...c.over].map(([nm, x]) => [nm, st, this.truthy(st, x)]);
    }
    if (v.k === 'bool') return [['post', st, this.truthy(st, v)]];
    // a record that differs by case: its names come from the dictionary
    const names = new Set();
    const walk = (t) => { if (t.op === 'ite') { walk(t.args[1]); walk(t.args[2]); } else if (t.op === 'store') { names.add(t.args[1].extra); walk(t.args[0]); } else if (t.op === 'Obj') walk(t.args[0]); else if (t !== T.emptyDict()) throw new Unsupported('specification does not yield a record of conditions', f.node); };
    if (v.k !== 'obj' || !v.t) throw new Unsupported(`specification yields ${v.k}`, f.node);
    walk(v.t);
    if (!names.size || [...names].some((n) => typeof n !== 'string')) throw new Unsupported('specification yields no conditions', f.node);
    return [...names].map((nm) => { const x = T.select(v.t, T.str(nm)); return [nm, st, T.and(T.not(T.is('Absent', x)), this.truthy(st, VAL(x)))]; });
  },
  callSpecRec(s, fn, args) {
    // functions declared with rec(...) in a contract module: uninterpreted with recursive definition
    return null;
  },
  readSpec(s, o, name, node) {
    if (o.kind === 'args') { if (o.map.has(name)) return [norm(s, o.map.get(name))]; return [norm(s, U)]; }
    throw new Unsupported('spec object', node);
  },
  addObligation(name, s, t, node) {
    let at = '';
    if (node && node.getSourceFile && node.pos >= 0) { const sf = node.getSourceFile(); const p = sf.getLineAndCharacterOfPosition(node.getStart(sf)); at = `${sf.fileName.replace(/^.*\/packages\//, 'packages/')}:${p.line + 1}`; }
    this.obligations.push({ name, pc: s.terms(), goal: t, at });
  },
};
Object.assign(Exec.prototype, P);
