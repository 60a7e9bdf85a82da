// Built-in objects. Mixed into Exec.prototype.
import { regexToSmt } from './regex.mjs';
import * as T from './terms.mjs';
import { ts, elemType, anyType, unionType, resolveType, loadModule } from './front.mjs';
const PLATFORM_URL = new URL('./platform/url.ts', import.meta.url).pathname;
import { Exec, Unsupported, State, U, N, B, I, R, S, VAL, ARR, OBJ, REF, W, NANV, INF, norm, throwO, newId } from './exec.mjs';
const isNumK = (v) => v.k === 'int' || v.k === 'num';
let typeN = 0;
export const parseTypeText = (text, m) => resolveType(ts.createSourceFile(`s${typeN++}.ts`, `type X = ${text};`, ts.ScriptTarget.ES2020, true, ts.ScriptKind.TS).statements[0].type, m);
const bi = (name) => ({ k: 'builtin', name });
const GLOBALS = new Set(['Object', 'Array', 'String', 'Number', 'Boolean', 'Math', 'JSON', 'Date', 'RegExp', 'Map', 'Set', 'WeakMap', 'WeakSet', 'Promise', 'Error', 'TypeError', 'URL', 'URLSearchParams', 'console', 'parseInt', 'parseFloat', 'isNaN', 'encodeURIComponent', 'decodeURIComponent', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'Symbol', 'Uint8Array', 'queueMicrotask', 'atob', 'btoa', 'requestAnimationFrame', 'Reflect', 'Proxy', 'isFinite', 'fetch', 'AbortController', 'structuredClone']);
const SPECFN = new Set(['mod', 'anyContents', 'same', 'forallKeys', 'forallInt', 'implies', 'iff', 'present', 'keysOf', 'isPermutation', 'uninterp', 'snap', 'traceOf', 'isObj', 'isArr', 'isStr', 'isNum', 'isBool', 'u32', 'existsInt', 'as', 'extensional', 'jsonValue', 'isJson', 'parsedJson']);
const pureV = (v) => v;

export const P = {
  globalValue(name, s) {
    if (this.opts.globals && name in this.opts.globals) { const g = this.opts.globals[name]; return typeof g === 'function' ? (s ? g(this, s) : bi(name)) : g; }
    if (GLOBALS.has(name) || SPECFN.has(name)) return bi(name);
    { const h = this.opts.globalProps?.['*.' + name]; if (h !== undefined && typeof h !== 'function') return h; }
    if (['window', 'globalThis', 'self', 'document', 'localStorage', 'sessionStorage', 'navigator', 'crypto', 'location', 'performance', 'history'].includes(name)) return { k: 'global', name };
    return null;
  },
  readExtName(s, o, name, node) {
    if (o.k === 'global') {
      const key = `${o.name}.${name}`;
      const h = this.opts.globalProps?.[key] ?? this.opts.globalProps?.['*.' + name];
      if (h !== undefined) return typeof h === 'function' ? h(this, s, o, node) : [norm(s, h)];
      if (['localStorage', 'sessionStorage', 'document', 'navigator', 'location', 'crypto', 'performance', 'history'].includes(name)) return [norm(s, { k: 'global', name })];
      if (['window', 'globalThis', 'self'].includes(o.name) && GLOBALS.has(name)) return [norm(s, bi(name))];
      return [norm(s, { k: 'builtin', name: key, prop: true })];
    }
    const key = `${o.name}.${name}`;
    switch (key) {
      case 'Number.MAX_SAFE_INTEGER': return [norm(s, I(T.int('9007199254740991')))];
      case 'Number.POSITIVE_INFINITY': return [norm(s, INF(false))];
      case 'Number.NEGATIVE_INFINITY': return [norm(s, INF(true))];
      case 'Math.PI': return [norm(s, R(T.real(Math.PI)))];
    }
    const h = this.externals[key];
    if (h && typeof h !== 'function') return [norm(s, h)];
    if (o.k === 'extname' && this.opts.extName) { const r = this.opts.extName(this, s, o, name, node); if (r) return r; }
    return [norm(s, { k: 'builtin', name: key })];
  },
  // contract option parsedAs: what JSON.parse returns is a new object of this type (content of another kind stays untyped, read-only data)
  parsedOwned(s, v) {
    if (!this.opts.parsedAs || this.spec) return [norm(s, VAL(v))];
    const ty = parseTypeText(this.opts.parsedAs, this.opts.targetModule), arr = ty.k === 'arr';
    return this.fork(s, T.is(arr ? 'Arr' : 'Obj', v)).map(([s2, yes]) => {
      if (!yes) return norm(s2, VAL(v));
      const [s3, w] = this.typed(s2, v, ty), id = newId();
      return norm(s3.set(id, arr ? { kind: 'arr', t: w.t, ty } : { kind: 'obj', dict: w.t, over: new Map(), ty }), REF(id));
    });
  },
  callGlobal(s, f, args, node) {
    const a = (i) => args[i] ?? U;
    const h = this.externals[f.name];
    if (h) return h(this, s, args, f, node);
    if (f.name.endsWith('.bind') && args.length <= 1) return [norm(s, { ...f, name: f.name.slice(0, -5) })];
    if (args.some((x) => x.k === 'opt')) {
      const i = args.findIndex((x) => x.k === 'opt');
      if (!['console.warn', 'console.error', 'console.debug', 'console.info', 'setTimeout'].includes(f.name)) return this.then(this.resolveOpt(s, args[i]), (s2, w) => this.callGlobal(s2, f, args.map((x, k) => (k === i ? w : x)), node));
    }
    switch (f.name) {
      case 'Boolean': return [norm(s, B(this.truthy(s, a(0))))];
      case 'String': return [norm(s, S(args.length ? this.toStr(s, a(0)) : T.str('')))];
      case 'Number': return args.length ? this.toNum(s, a(0)) : [norm(s, I(0))];
      case 'isNaN': case 'Number.isNaN': return this.then(f.name === 'isNaN' ? this.toNum(s, a(0)) : [norm(s, a(0))], (s2, v) => [norm(s2, B(v.k === 'nan' ? T.TRUE() : v.k === 'val' ? T.is('NaN', v.t) : T.FALSE()))]);
      case 'isFinite': case 'Number.isFinite': return this.then(f.name === 'isFinite' ? this.toNum(s, a(0)) : [norm(s, a(0))], (s2, v) => [norm(s2, B(isNumK(v) || v.k === 'i32' ? T.TRUE() : v.k === 'val' ? T.is('Num', v.t) : T.FALSE()))]);
      case 'Number.isInteger': { const v = a(0); return [norm(s, B(v.k === 'int' || v.k === 'i32' ? T.TRUE() : v.k === 'num' ? T.eq(T.toReal(T.toInt(v.t)), v.t) : v.k === 'val' ? T.and(T.is('Num', v.t), T.eq(T.toReal(T.toInt(T.un('Num', v.t))), T.un('Num', v.t))) : T.FALSE()))]; }
      case 'parseInt': case 'Number.parseInt': { const t = T.uf('parseInt', [this.toStr(s, a(0))], 'Val'); return [norm(s.assume(T.or(T.is('NaN', t), T.and(T.is('Num', t), T.eq(T.toReal(T.toInt(T.un('Num', t))), T.un('Num', t))))), VAL(t, { k: 'num?' }))]; }
      case 'parseFloat': case 'Number.parseFloat': { const txt = this.toStr(s, a(0)); if (txt.op === 'uf' && txt.extra === 'num2str') return [norm(s, txt.args[0].sort === 'Int' ? I(txt.args[0]) : R(txt.args[0]))]; // the text of a number parses back to it
        const t = T.uf('parseFloat', [this.toStr(s, a(0))], 'Val'); return [norm(s.assume(T.or(T.is('NaN', t), T.is('Num', t), T.is('PInf', t), T.is('NInf', t))), VAL(t))]; }
      case 'encodeURIComponent': case 'decodeURIComponent': case 'atob': case 'btoa': {
        const mayThrow = f.name === 'decodeURIComponent' || f.name === 'atob' || f.name === 'btoa';
        const st = this.toStr(s, a(0));
        const r = norm(s, S(T.uf(f.name, [st], 'String')));
        if (!mayThrow || this.spec) return [r];
        const out = [];
        for (const [s2, bad] of this.fork(s, T.uf(f.name + '_fails', [st], 'Bool'))) out.push(bad ? throwO(s2, S('URIError')) : { ...r, s: s2 });
        return out;
      }
      case 'Array.isArray': { const v = a(0); return [norm(s, B(v.k === 'arr' ? T.TRUE() : v.k === 'val' ? T.is('Arr', v.t) : v.k === 'ref' ? T.bool(s.get(v.id).kind === 'arr') : T.FALSE()))]; }
      case 'Array.from': {
        const v = a(0);
        return this.then(this.toSeqLoose(s, v, node), (s2, q) => {
          const mk = (s3) => { if (q.els) return this.mkArray(s3, q.els); const [s4, r] = this.alloc(s3, { kind: 'arr', t: q.t, ty: q.elTy ? { k: 'arr', el: () => q.elTy } : undefined }); return [norm(s4, r)]; };
          if (args.length > 1) return this.then(mk(s2), (s3, r) => this.callMethod(s3, r, 'map', [args[1]], node));
          return mk(s2);
        });
      }
      case 'Array.of': return this.mkArray(s, args);
      case 'Array': return this.newGlobal(s, f, args, node);
      case 'Uint8Array.from': return this.bytesFrom(s, a(0), node);
      case 'Object.keys': return this.keysOf(s, a(0), node);
      case 'Object.values': return this.valuesOf(s, a(0), node, false);
      case 'Object.entries': return this.valuesOf(s, a(0), node, true);
      case 'Object.setPrototypeOf': {
        // an object is given the prototype of its own class
        const c = a(0).k === 'ref' && s.get(a(0).id);
        if (c && c.cls && a(1).k === 'builtin' && a(1).decl === c.cls) return [norm(s, a(0))];
        throw new Unsupported('Object.setPrototypeOf', node);
      }
      case 'Object.assign': {
        let outs = [norm(s, a(0))];
        for (const src of args.slice(1)) outs = this.then(outs, (s2, tgt) => {
          if (tgt.k !== 'ref') throw new Unsupported('Object.assign target', node);
          const c = s2.get(tgt.id);
          return this.then(this.spreadInto(s2, { dict: c.dict, over: c.over }, src, node), (s3, acc) => [norm(s3.set(tgt.id, { ...s3.get(tgt.id), dict: acc.dict, over: acc.over }), tgt)]);
        });
        return outs;
      }
      case 'Object.fromEntries': return this.fromEntries(s, a(0), node);
      case 'Object.freeze': case 'Object.setPrototypeOf': case 'Object.seal': return [norm(s, a(0))];
      case 'Object.create': { const [s2, r] = this.alloc(s, { kind: 'obj', dict: T.emptyDict(), over: new Map() }); return [norm(s2, r)]; }
      case 'Object.prototype.hasOwnProperty.call': return this.hasKey(s, a(0), a(1), node);
      case 'JSON.stringify': {
        const v = a(0);
        if (v.k === 'undef') return [norm(s, U)];
        const outs = [];
        // undefined at top level gives undefined
        if (v.k === 'val') { for (const [s2, u] of this.fork(s, T.is('Undef', v.t))) outs.push(norm(s2, u ? U : S(this.jsonOf(s2, v)))); return this.tryMerge(s, outs); }
        return [norm(s, S(this.jsonOf(s, v)))];
      }
      case 'Base64.encodeURL': case 'Base64.encode': case 'Base64.decode': return [norm(s, S(T.uf({ encodeURL: 'base64url', encode: 'base64', decode: 'base64_decode' }[f.name.slice(7)], [T.ctor('Str', this.toStr(s, a(0)))], 'String')))];
      case 'JSON.parse': {
        const t = this.toStr(s, a(0));
        const v = T.uf('json_parse', [t], 'Val');
        let lit = null;
        if (t.op === 'str') { try { JSON.parse(t.extra); lit = false; } catch { lit = true; } }
        const bad = lit === true ? T.TRUE() : T.uf('json_bad', [t], 'Bool');
        if (t.op === 'ite') { const out = []; for (const [s2, c] of this.fork(s, t.args[0])) out.push(...this.callGlobal(s2, f, [S(t.args[c ? 1 : 2])], node)); return this.tryMerge(s, out); }
        const out = [];
        let s1 = s.assume(T.not(T.is('Absent', v))).assume(T.not(T.is('Undef', v))).assume(T.not(T.is('NaN', v)));
        for (const [s2, b] of this.fork(s1, bad)) out.push(...(b ? [throwO(s2, S('SyntaxError: JSON'))] : this.parsedOwned(s2, v)));
        return out;
      }
      case 'Math.imul': return this.then(this.toInt32(s, a(0), node), (s1, x) => this.then(this.toInt32(s1, a(1), node), (s2, y) => [norm(s2, W(T.app('bvmul', [x.t, y.t], 'BV32')))]));
      case 'Math.floor': case 'Math.round': case 'Math.ceil': case 'Math.trunc': return this.then(this.toNum(s, a(0)), (s1, v) => this.splitNum(s1, v).map(([s2, n]) => {
        if (n.udiv) return norm(s2, W(T.app('bvudiv', n.udiv, 'BV32'), true));
        if (n.k === 'int' || n.k === 'nan' || n.k === 'inf' || n.k === 'i32') return norm(s2, n);
        if (f.name === 'Math.floor') return norm(s2, I(T.toInt(n.t)));
        if (f.name === 'Math.round') return norm(s2, I(T.toInt(T.add(n.t, T.real(0.5)))));
        if (f.name === 'Math.ceil') return norm(s2, I(T.sub(T.int(0), T.toInt(T.sub(T.real(0), n.t)))));
        return norm(s2, I(T.ite(T.cmp('>=', n.t, T.real(0)), T.toInt(n.t), T.sub(T.int(0), T.toInt(T.sub(T.real(0), n.t))))));
      }));
      case 'Math.min': case 'Math.max': {
        if (args.some((x) => x.k === 'spread')) {
          const rest = args.filter((x) => x.k !== 'spread'), sp = args.filter((x) => x.k === 'spread');
          if (sp.length === 1 && !rest.length) return [norm(s, VAL(T.uf(f.name.replace('.', '_') + '_seq', [sp[0].t], 'Val')))];
          throw new Unsupported('spread in Math.min/max', node);
        }
        let outs = [norm(s, a(0))];
        outs = this.then(outs, (s1, v) => this.toNum(s1, v));
        for (const x of args.slice(1)) outs = this.then(outs, (s1, v) => this.then(this.toNum(s1, x), (s2, y) => {
          const res = [];
          for (const [s3, v2] of this.splitNum(s2, v)) for (const [s4, y2] of this.splitNum(s3, y)) {
            if (v2.k === 'nan' || y2.k === 'nan') res.push(norm(s4, NANV));
            else if (v2.k === 'inf' || y2.k === 'inf') { const c = this.cmpNum('<', v2, y2); const less = T.isT(c.t); const pick = f.name === 'Math.min' ? (less ? v2 : y2) : (less ? y2 : v2); if (!T.isT(c.t) && !T.isF(c.t)) throw new Unsupported('inf', node); res.push(norm(s4, pick)); }
            else { const c = T.cmp('<=', v2.t, y2.t); const t = f.name === 'Math.min' ? T.ite(c, v2.t, y2.t) : T.ite(c, y2.t, v2.t); res.push(norm(s4, t.sort === 'Int' ? I(t) : R(t))); }
          }
          return res;
        }));
        return this.tryMerge(s, outs);
      }
      case 'Math.abs': return this.then(this.toNum(s, a(0)), (s1, n) => [norm(s1, isNumK(n) ? { ...n, t: T.ite(T.cmp('>=', n.t, n.k === 'int' ? T.int(0) : T.real(0)), n.t, T.sub(n.k === 'int' ? T.int(0) : T.real(0), n.t)) } : n)]);
      case 'Math.random': { const t = T.fresh('random', 'Real'); return [norm(s.assume(T.cmp('<=', T.real(0), t)).assume(T.cmp('<', t, T.real(1))), { k: 'num', t })]; }
      case 'Math.pow': return this.arith(s, '**', a(0), a(1), node);
      case 'Math.sqrt': case 'Math.log': case 'Math.sin': case 'Math.cos': return this.then(this.toNum(s, a(0)), (s1, n) => [norm(s1, R(T.uf(f.name.replace('.', '_'), [T.toReal(n.t)], 'Real')))]);
      case 'Date.now': case 'performance.now': return [norm(s, this.nowV())];
      case 'Promise.resolve': return [this.wrapAsync(s, a(0))];
      case 'Promise.reject': return [norm(s, { k: 'prom', st: 'err', v: a(0) })];
      case 'Promise.all': return this.then(this.toSeq(s, a(0), node), (s2, q) => {
        if (!q.els) throw new Unsupported('Promise.all on symbolic array', node);
        let outs = [norm(s2, [])];
        for (const p of q.els) outs = this.then(outs, (s3, acc) => this.then(this.awaitV(s3, p, node), (s4, v) => [norm(s4, [...acc, v])]));
        return this.then(outs.map((o) => (o.c === 'throw' ? norm(o.s, { k: 'prom', st: 'err', v: o.v, done: true }) : o)), (s3, vs) => (vs.done ? [norm(s3, vs)] : this.then(this.mkArray(s3, vs), (s4, r) => [norm(s4, { k: 'prom', st: 'ok', v: r })])));
      });
      case 'Promise.race': return this.then(this.toSeq(s, a(0), node), (s2, q) => {
        if (!q.els) throw new Unsupported('Promise.race', node);
        const out = [];
        let rest = s2;
        q.els.forEach((p, i) => {
          if (i === q.els.length - 1) { out.push(norm(rest, p)); return; }
          const [x, y] = [T.fresh('race', 'Bool')].flatMap((b) => [b, b]);
          const fs = this.fork(rest, x);
          for (const [s3, b] of fs) if (b) out.push(norm(s3, p)); else rest = s3;
        });
        return out;
      });
      case 'setTimeout': case 'window.setTimeout': case 'globalScope.setTimeout': case 'setInterval': case 'window.setInterval': {
        const [s2, r] = this.alloc(this.traceEvent(s, f.name.replace(/^.*\./, ''), args), { kind: 'obj', ext: 'timer', dict: T.emptyDict(), over: new Map(), path: 'timer' });
        return [norm(s2, r)];
      }
      case 'clearTimeout': case 'clearInterval': case 'window.clearTimeout': case 'globalScope.clearTimeout': return [norm(this.traceEvent(s, f.name.replace(/^.*\./, ''), args), U)];
      case 'console.warn': case 'console.error': case 'console.debug': case 'console.info': case 'console.log': return [norm(this.opts.traceConsole ? this.traceEvent(s, f.name, args) : s, U)];
      case 'Error': case 'TypeError': return this.newGlobal(s, f, args, node);
      case 'RegExp': return this.newGlobal(s, f, args, node);
      case 'Symbol': return [norm(s, U)];
      case 'structuredClone': return [norm(s, this.fromVal(this.toVal(s, a(0)), a(0).ty))];
      case 'String.fromCharCode': return [norm(s, S(T.app('str.from_code', [a(0).t], 'String')))];
      // ---- specification vocabulary
      case 'same': case 'iff': case 'implies': case 'forallKeys': case 'forallInt': case 'existsInt': case 'present': case 'keysOf': case 'uninterp': case 'snap': case 'isObj': case 'isArr': case 'isStr': case 'isNum': case 'isBool': case 'u32': case 'as': case 'extensional': case 'jsonValue': case 'isJson': case 'parsedJson': case 'mod': case 'anyContents': return this.specBuiltin(s, f.name, args, node);
    }
    if (this.opts.globalCall) { const r = this.opts.globalCall(this, s, f, args, node); if (r) return r; }
    throw new Unsupported(`call of ${f.name}`, node);
  },
  nowV() {
    if (!this.nowTerm) this.nowTerm = T.cst('now', 'Real');
    return R(this.nowTerm);
  },
  jsonOf(s, v) {
    if (v.k === 'str' && v.t.op === 'str') return T.str(JSON.stringify(v.t.extra));
    return T.uf('json_str', [this.toVal(s, v)], 'String');
  },
  specBuiltin(s, name, args, node) {
    const a = (i) => args[i] ?? U;
    switch (name) {
      case 'same': {
        const x = a(0), y = a(1);
        if (x.k === 'ref' && y.k === 'ref' && x.id === y.id) return [norm(s, B(true))];
        if (x.k === 'opt' && y.k === 'opt' && x.c === y.c) return [norm(s, B(true))];
        if (isNumK(x) && isNumK(y)) return [norm(s, B(T.eq(x.t, y.t)))];
        if (x.k === 'i32' && isNumK(y) || y.k === 'i32' && isNumK(x)) { const i = (v) => (v.k === 'i32' ? this.i32ToInt(v) : v.t); return [norm(s, B(T.eq(i(x), i(y))))]; }
        if (x.k === 'arr' && y.k === 'arr') return [norm(s, B(T.eq(x.t, y.t)))];
        return [norm(s, B(T.eq(this.toVal(s, x), this.toVal(s, y))))];
      }
      // extensionality, for the given pair of lists or records
      case 'extensional': {
        const x = this.toVal(s, a(0)), y = this.toVal(s, a(1)), k = T.fresh('xk', 'String'), j = T.fresh('xj', 'Int'), bi_ = T.cst('$xk', 'String'), xs = T.un('Arr', x), ys = T.un('Arr', y);
        const arrs = T.implies(T.and(T.is('Arr', x), T.is('Arr', y), T.eq(T.len(xs), T.len(ys)), this.quant(j, T.implies(T.and(T.cmp('<=', T.int(0), j), T.cmp('<', j, T.len(xs))), T.eq(T.nth(xs, j), T.nth(ys, j))))), T.eq(x, y));
        const objs = T.implies(T.and(T.is('Obj', x), T.is('Obj', y), this.quant(bi_, T.eq(T.select(T.un('Obj', x), bi_), T.select(T.un('Obj', y), bi_)))), T.eq(x, y));
        return [norm(s, B(T.and(arrs, objs)))];
      }
      case 'as': { const ty = parseTypeText(a(1).t.extra, this.opts.targetModule ?? null); const v = a(0); if (v.k === 'ref' && s.get(v.id).kind === 'obj' && !s.get(v.id).ext) return [norm(s.set(v.id, { ...s.get(v.id), ty }), v)]; return [norm(s, v.k === 'arr' ? ARR(v.t, ty) : v.k === 'ref' && s.get(v.id).kind === 'arr' ? ARR(this.seqOf(s, v.id), ty) : v.k === 'val' ? VAL(v.t, ty) : v)]; }
      case 'iff': return [norm(s, B(T.eq(this.truthy(s, a(0)), this.truthy(s, a(1)))))];
      case 'implies': {
        const c = this.truthy(s, a(0));
        if (a(1).k !== 'fn') return [norm(s, B(T.implies(c, this.truthy(s, a(1)))))];
        const outs = [];
        for (const [s2, b] of this.fork(s, c)) if (b) outs.push(...this.then(this.invoke(s2, a(1), U, [], node), (s3, v) => [norm(s3, B(this.truthy(s3, v)))])); else outs.push(norm(s2, B(true)));
        return this.tryMerge(s, outs);
      }
      case 'present': return [norm(s, B(T.not(T.is('Absent', T.select(this.dictV(s, a(0)), this.keyTerm(s, a(1)))))))];
      case 'forallKeys': case 'forallInt': case 'existsInt': {
        const f = args[args.length - 1];
        const k = T.fresh('k', name === 'forallKeys' ? 'String' : 'Int');
        const mark = T.freshMark();
        const kv = name === 'forallKeys' ? S(k) : I(k);
        const outs = this.invoke(s, f, U, [kv], node);
        const m = this.tryMerge(s, outs);
        if (m.length !== 1) throw new Unsupported('quantified specification does not merge', node);
        const body0 = this.truthy(m[0].s, m[0].v);
        const facts = m[0].s.since(s.pc).map((p) => p.t);
        const sk = new Map();
        for (const t of [body0, ...facts]) for (const c of T.constsOf(t)) if (T.freshStamp(c) > mark && c !== k) sk.set(c.id, T.uf('sk_' + c.extra.replace('!', '_'), [k], c.sort));
        const body = T.underContext(T.subst(body0, sk));
        let s2 = s;
        if (facts.length) s2 = s2.assume(this.quant(k, T.underContext(T.subst(T.and(facts), sk))));
        if (name === 'existsInt') return [norm(s2, B(T.not(this.quant(k, T.not(body)))))];
        return [norm(s2, B(this.quant(k, body)))];
      }
      case 'keysOf': return this.keysOf(s, a(0), node);
      case 'jsonValue': return [norm(s, B(T.uf('jsonlike', [this.toVal(s, a(0))], 'Bool')))]; // consists of JSON values only
      case 'anyContents': { const c = s.get(a(0).id); return [norm(s.set(a(0).id, { ...c, t: T.fresh('contents', c.t.sort), keys: undefined }), a(0))]; } // the map or set now holds anything
      case 'mod': return this.readModuleName(s, this.opts.targetModule, a(0).t.extra, node); // a module-level name of the target, as it is now
      case 'parsedJson': { const v = T.uf('json_parse', [this.toStr(s, a(0))], 'Val'); return [norm(s.assume(T.not(T.is('Absent', v))).assume(T.not(T.is('Undef', v))).assume(T.not(T.is('NaN', v))), VAL(v))]; } // meaningful when isJson
      case 'isJson': return [norm(s, B(T.not(T.uf('json_bad', [this.toStr(s, a(0))], 'Bool'))))]; // the text is JSON
      case 'snap': return [norm(s, this.fromVal(this.toVal(s, a(0)), a(0).ty))];
      case 'isObj': return [norm(s, B(T.is('Obj', this.toVal(s, a(0)))))];
      case 'isArr': return [norm(s, B(T.is('Arr', this.toVal(s, a(0)))))];
      case 'isStr': return [norm(s, B(T.is('Str', this.toVal(s, a(0)))))];
      case 'isNum': return [norm(s, B(T.is('Num', this.toVal(s, a(0)))))];
      case 'isBool': return [norm(s, B(T.is('VBool', this.toVal(s, a(0)))))];
      case 'u32': return this.then(this.toInt32(s, a(0), node), (s2, w) => [norm(s2, W(w.t, true))]);
      case 'uninterp': { // uninterp('name', sort, ...args)
        const nm = a(0).t.extra, sort = a(1).t.extra;
        const t0 = T.uf(nm, args.slice(2).map((v) => this.toVal(s, v)), sort), t = sort === 'Val' ? T.rd(t0) : t0;
        return [norm(s, sort === 'Bool' ? B(t) : sort === 'String' ? S(t) : sort === 'Seq' ? ARR(t) : sort === 'Int' ? I(t) : sort === 'BV32' ? W(t, true) : sort === 'Real' ? R(t) : VAL(t))];
      }
    }
    throw new Unsupported(`spec function ${name}`, node);
  },
  dictV(s, v) {
    switch (v.k) {
      case 'obj': return v.t;
      case 'ref': { const c = s.get(v.id); if (c.kind === 'obj' && !c.ext) return this.dictOf(s, v.id); break; }
      case 'val': return T.ite(T.is('Obj', v.t), T.un('Obj', v.t), T.emptyDict());
      case 'undef': case 'null': return T.emptyDict();
    }
    throw new Unsupported(`dictionary view of ${v.k}`);
  },
  // ---------------------------------------------------------------- keys of dictionaries
  keySeq(s, d) {
    // keyOrder: the order of the keys belongs to the object, not to its contents
    const own = this.opts.keyOrder ? [T.cst('order' + d.id, 'Int')] : [];
    const t = T.uf(own.length ? 'ordKeys' : 'keys', [d, ...own], 'Seq');
    this.keyDicts = this.keyDicts || new Map();
    let s2 = s;
    const j = T.fresh('kj', 'Int'), k = T.cst('$k', 'String');
    const idx = (kt) => (own.length ? T.uf('ordKeyIdx', [d, ...own, kt], 'Int') : T.uf('keyIdx', [d, kt], 'Int'));
    const inR = (x) => T.and(T.cmp('<=', T.int(0), x), T.cmp('<', x, T.len(t)));
    const el = T.nth(t, j);
    s2 = s2.assume(this.quant(j, T.implies(inR(j), T.and(T.is('Str', el), T.not(T.is('Absent', T.select(d, T.un('Str', el)))), T.eq(idx(T.un('Str', el)), j)))));
    s2 = s2.assume(this.quant(k, T.implies(T.not(T.is('Absent', T.select(d, k))), T.and(inR(idx(k)), T.eq(T.nth(t, idx(k)), T.ctor('Str', k))))));
    return [s2, t];
  },
  // known literal keys of a store chain over the empty dictionary
  literalKeys(d) {
    const keys = [];
    let cur = d;
    while (cur.op === 'store') {
      if (cur.args[1].op !== 'str') return null;
      keys.push([cur.args[1].extra, cur.args[2]]);
      cur = cur.args[0];
    }
    if (cur.op !== 'emptyDict') return null;
    const m = new Map();
    for (const [k, v] of keys.reverse()) { m.delete(k); m.set(k, v); }
    for (const v of m.values()) { const a = T.is('Absent', v); if (!T.isT(a) && !T.isF(a)) return null; }
    return [...m].filter(([, v]) => v.op !== 'Absent');
  },
  keysOf(s, v, node) {
    switch (v.k) {
      case 'opt': return this.then(this.resolveOpt(s, v), (s2, w) => this.keysOf(s2, w, node));
      case 'undef': case 'null': return this.spec ? this.mkArray(s, []) : [throwO(s, S('TypeError: Cannot convert undefined or null to object'))];
      case 'obj': {
        const lk = this.literalKeys(v.t);
        if (lk) return this.mkArray(s, lk.map(([k]) => S(k)));
        const [s2, t] = this.keySeq(s, v.t);
        const [s3, r] = this.alloc(s2, { kind: 'arr', t, ty: { k: 'arr', el: () => ({ k: 'str' }) } });
        return [norm(s3, r)];
      }
      case 'ref': {
        const c = s.get(v.id);
        if (c.kind === 'obj' && !c.ext && !c.lazyCls) {
          if (c.dict.op === 'emptyDict' && [...c.over.keys()].every((k) => !/^\d+$/.test(k))) return this.mkArray(s, [...c.over].filter(([, x]) => x !== null).map(([k]) => S(k)));
          return this.keysOf(s, OBJ(this.dictOf(s, v.id)), node);
        }
        if (c.kind === 'arr') throw new Unsupported('Object.keys of an array', node);
        break;
      }
      case 'enumobj': return this.mkArray(s, v.decl.members.map((m) => S(m.name.text)));
      case 'val': {
        const outs = this.cases(s, v, ['Obj', 'Undef', 'Null']).flatMap(([s2, w]) => {
          if (w.k === 'val') { const t = T.uf('keysOther', [w.t], 'Seq'); const [s3, r] = this.alloc(s2, { kind: 'arr', t, ty: { k: 'arr', el: () => ({ k: 'str' }) } }); return [norm(s3, r)]; }
          return this.keysOf(s2, w, node);
        });
        return outs;
      }
      default: return this.mkArray(s, []);
    }
    throw new Unsupported(`Object.keys of ${v.k}`, node);
  },
  valuesOf(s, v, node, entries) {
    if (v.k === 'opt') return this.then(this.resolveOpt(s, v), (s2, w) => this.valuesOf(s2, w, node, entries));
    if (v.k === 'enumobj') {
      let outs = [norm(s, [])];
      return this.mkArray(s, v.decl.members.map((m) => this.enumValue(v, m)));
    }
    if (v.k === 'val') return this.cases(s, v, ['Obj', 'Undef', 'Null']).flatMap(([s2, w]) => {
      if (w.k === 'val') throw new Unsupported('Object.values of a non-object', node);
      return this.valuesOf(s2, w, node, entries);
    });
    return this.then(this.keysOf(s, v, node), (s2, kr) => {
      const kc = s2.get(kr.id);
      if (kc.els) {
        let outs = [norm(s2, [])];
        for (const k of kc.els) outs = this.then(outs, (s3, acc) => this.then(this.readKey(s3, v, k, node), (s4, x) => (entries ? this.then(this.mkArray(s4, [k, x]), (s5, p) => [norm(s5, [...acc, p])]) : [norm(s4, [...acc, x])])));
        return this.then(outs, (s3, vs) => this.mkArray(s3, vs));
      }
      const d = this.dictV(s2, v);
      const pt = v.k === 'obj' ? this.indexType(v.ty) : v.k === 'ref' ? this.indexType(s2.get(v.id).ty) : null;
      // elementwise image of the key sequence
      const j = T.fresh('j', 'Int');
      const key = T.nth(kc.t, j);
      const val = T.rd(T.select(d, T.un('Str', key)));
      const E = T.unit(entries ? T.ctor('Arr', T.concat(T.unit(T.ctor('Str', T.un('Str', key))), T.unit(val))) : val);
      const n = T.len(kc.t);
      const rangeJ = T.and(T.cmp('<=', T.int(0), j), T.cmp('<', j, n));
      const [s3, t] = this.flatTerm(s2, E, j, n, rangeJ);
      const elTy = entries ? { k: 'arr', el: () => anyType, tuple: [() => ({ k: 'str' }), () => (pt ? pt.type : anyType)] } : pt ? pt.type : anyType;
      const [s4, r] = this.alloc(s3, { kind: 'arr', t, ty: { k: 'arr', el: () => elTy } });
      return [norm(s4, r)];
    });
  },
  fromEntries(s, v, node) {
    const [s0, r] = this.alloc(s, { kind: 'obj', dict: T.emptyDict(), over: new Map() });
    return this.then(this.toSeqLoose(s0, v, node), (s1, q) => this.then(this.iterate(s1, q, (s2, el) => this.then(this.readKey(s2, el, I(0), node), (s3, k) => this.then(this.readKey(s3, el, I(1), node), (s4, x) => this.then(this.writeProp(s4, r, k, x, node), (s5) => [norm(s5, U)]))), node), (s2) => [norm(s2, r)]));
  },
  toSeqLoose(s, v, node) {
    if (v.k === 'str') throw new Unsupported('iteration over a string', node);
    return this.toSeq(s, v, node);
  },

  // ---------------------------------------------------------------- constructors
  newGlobal(s, f, args, node) {
    const a = (i) => args[i] ?? U;
    const h = this.externals['new ' + f.name];
    if (h) return h(this, s, args, f, node);
    switch (f.name) {
      case 'Map': {
        const [s1, r] = this.alloc(s, { kind: 'map', t: T.emptyVMap(), els: [] });
        if (!args.length || a(0).k === 'undef' || a(0).k === 'null') return [norm(s1, r)];
        return this.then(this.toSeq(s1, a(0), node), (s2, q) => {
          if (q.mapOf) return [norm(s2.set(r.id, { ...s2.get(q.mapOf), path: undefined }), r)];
          return this.then(this.iterate(s2, q, (s3, el) => this.then(this.readKey(s3, el, I(0), node), (s4, k) => this.then(this.readKey(s4, el, I(1), node), (s5, x) => this.then(this.callMethod(s5, r, 'set', [k, x], node), (s6) => [norm(s6, U)]))), node), (s3) => [norm(s3, r)]);
        });
      }
      case 'Set': {
        const [s1, r] = this.alloc(s, { kind: 'set', t: T.mk('emptyVSet', [], 'VSet'), keys: T.emptySeq() });
        if (!args.length || a(0).k === 'undef') return [norm(s1, r)];
        return this.then(this.toSeq(s1, a(0), node), (s2, q) => {
          const t = q.els ? T.concat(q.els.map((x) => T.unit(this.toVal(s2, x)))) : q.t;
          if (q.els) { let d = T.mk('emptyVSet', [], 'VSet'); for (const x of q.els) d = T.mk('store', [d, this.toVal(s2, x), T.TRUE()], 'VSet'); return [norm(s2.set(r.id, { kind: 'set', t: d, keys: T.uf('dedupe', [t], 'Seq'), of: t }), r)]; }
          const st = T.uf('setOf', [t], 'VSet'), ks = T.uf('dedupe', [t], 'Seq');
          return [norm(this.setAxioms(s2, st, ks, t).set(r.id, { kind: 'set', t: st, keys: ks, of: t, ty: q.elTy ? { k: 'set', el: () => q.elTy } : undefined }), r)];
        });
      }
      case 'WeakMap': case 'WeakSet': { const [s1, r] = this.alloc(s, { kind: f.name === 'WeakMap' ? 'map' : 'set', t: f.name === 'WeakMap' ? T.emptyVMap() : T.mk('emptyVSet', [], 'VSet'), keys: T.emptySeq() }); return [norm(s1, r)]; }
      case 'Error': case 'TypeError': { const [s1, r] = this.alloc(s, { kind: 'obj', error: f.name, identity: true, dict: T.emptyDict(), over: new Map([['message', a(0)]]) }); return [norm(s1, r)]; }
      case 'Array': {
        if (args.length === 1 && isNumK(a(0))) throw new Unsupported('new Array(n)', node);
        return this.mkArray(s, args);
      }
      case 'RegExp': {
        const t = T.uf('regexp', [this.toStr(s, a(0)), args[1] ? this.toStr(s, args[1]) : T.str('')], 'Val');
        const r = { k: 'regex', t, src: a(0).k === 'str' && a(0).t.op === 'str' ? a(0).t.extra : null };
        if (r.src !== null || this.spec) return [norm(s, r)];
        const out = [];
        for (const [s2, bad] of this.fork(s, T.uf('regexp_bad', [this.toStr(s, a(0))], 'Bool'))) out.push(bad ? throwO(s2, S('SyntaxError: Invalid regular expression')) : norm(s2, r));
        return out;
      }
      case 'Date': {
        const [s1, r] = this.alloc(s, { kind: 'obj', identity: true, dict: T.emptyDict(), over: new Map(), date: args.length ? a(0) : this.nowV(), path: 'date' });
        return [norm(s1, r)];
      }
      case 'Promise': {
        const id = newId();
        let s1 = s.set(id, { kind: 'promcell', st: 'pending', v: U });
        const settle = (st) => ({ k: 'fn', fn: { name: st, builtin: (ex, s2, as) => { const c = s2.get(id); if (c.st !== 'pending') return [norm(s2, U)]; return [norm(s2.set(id, { ...c, st, v: as[0] ?? U }), U)]; } } });
        return this.then(this.invoke(s1, a(0), U, [settle('ok'), settle('err')], node), (s2) => {
          const c = s2.get(id);
          if (c.st === 'ok') return [this.wrapAsync(s2, c.v)];
          if (c.st === 'err') return [norm(s2, { k: 'prom', st: 'err', v: c.v })];
          return [norm(s2, { k: 'prom', st: 'cell', id })];
        });
      }
      case 'Uint8Array': return this.bytesFrom(s, a(0), node);
      case 'URL': case 'URLSearchParams': {
        const m = loadModule(PLATFORM_URL), d = m.decls.get(f.name);
        this.assumptions.add('URL and URLSearchParams behave as the platform model tsv/platform/url.ts');
        return this.construct(s, { k: 'class', decl: d.node, m }, args, node);
      }
    }
    if (this.opts.newExternal) { const r = this.opts.newExternal(this, s, f, args, node); if (r) return r; }
    const [s1, r] = this.alloc(this.traceEvent(s, `new ${f.name}`, args), { kind: 'obj', ext: f.name, identity: true, dict: T.emptyDict(), over: new Map(), path: f.name, ty: null });
    return [norm(s1, r)];
  },
  setAxioms(s, st, ks, src) {
    const j = T.fresh('sj', 'Int'), v = T.cst('$v', 'Val');
    const mem = (x) => T.app('select', [st, x], 'Bool');
    const inR = (x, q) => T.and(T.cmp('<=', T.int(0), x), T.cmp('<', x, T.len(q)));
    const idx = (x) => T.uf('setIdx', [src, x], 'Int'), di = (x) => T.uf('dedupeIdx', [src, x], 'Int');
    let s2 = s.assume(this.quant(j, T.implies(inR(j, src), mem(T.nth(src, j)))));
    s2 = s2.assume(this.quant(v, T.implies(mem(v), T.and(inR(idx(v), src), T.eq(T.nth(src, idx(v)), v)))));
    // the key sequence lists each member once
    s2 = s2.assume(this.quant(j, T.implies(inR(j, ks), T.and(mem(T.nth(ks, j)), T.eq(di(T.nth(ks, j)), j)))));
    s2 = s2.assume(this.quant(v, T.implies(mem(v), T.and(inR(di(v), ks), T.eq(T.nth(ks, di(v)), v)))));
    // finite sets: equal cardinality and inclusion give equality (and conversely)
    this.setSrcs = this.setSrcs || new Map();
    for (const [src0, { st: st0, ks: ks0 }] of this.setSrcs) {
      if (src0 === src) continue;
      const incl = (a, b) => this.quant(j, T.implies(inR(j, a), T.app('select', [b, T.nth(a, j)], 'Bool')));
      const sub = incl(src, st0), sup = incl(src0, st);
      s2 = s2.assume(T.implies(T.eq(T.len(ks), T.len(ks0)), T.eq(sub, sup))).assume(T.implies(T.and(sub, sup), T.eq(T.len(ks), T.len(ks0))));
      this.assumptions.add('finite sets: of two sets of the same size neither is properly included in the other; equal sets have equal sizes');
    }
    this.setSrcs.set(src, { st, ks });
    return s2;
  },
  mapSize(c) { return c.t.op === 'emptyVMap' ? T.int(0) : T.uf('mapSize', [c.t], 'Int'); },
  setSize(c) { return T.len(c.keys); },
  bytesLen(c) { return T.len(c.t); },
  bytesFrom(s, v, node) {
    if (v.k === 'int') throw new Unsupported('byte buffer', node);
    return this.then(this.toSeq(s, v, node), (s2, q) => {
      const t = q.els ? T.concat(q.els.map((x) => T.unit(this.toVal(s2, x)))) : q.t;
      const [s3, r] = this.alloc(s2, { kind: 'arr', t, bytes: true });
      return [norm(s3, r)];
    });
  },
  readBytes() { throw new Unsupported('bytes'); },
  writeBytes() { throw new Unsupported('bytes'); },

  // ---------------------------------------------------------------- methods of built-in values
  callMethod(s, recv, name, args, node) {
    switch (recv.k) {
      case 'opt': return this.then(this.resolveOpt(s, recv), (s2, w) => this.callMethod(s2, w, name, args, node));
      case 'str': return this.strMethod(s, recv, name, args, node);
      case 'arr': return this.arrMethod(s, recv, name, args, node);
      case 'obj': case 'enumobj':
        if (name === 'hasOwnProperty') return this.hasKey(s, recv, args[0], node);
        break;
      case 'int': case 'num': case 'bool': case 'nan': case 'i32': case 'inf':
        if (name === 'toString' && args.length === 0) return [norm(s, S(this.toStr(s, recv)))];
        if (name === 'toFixed' || name === 'toString') return [norm(s, S(T.uf('num_' + name, [this.toVal(s, recv), this.toVal(s, args[0] ?? U)], 'String')))];
        if (name === 'valueOf') return [norm(s, recv)];
        break;
      case 'fn':
        if (name === 'bind') return [norm(s, { k: 'fn', fn: { bound: recv.fn, thisV: args[0] ?? U, args: args.slice(1), name: recv.fn.name } })];
        if (name === 'call') return this.callFn(s, recv.fn, args[0] ?? U, args.slice(1), node);
        if (name === 'apply') return this.then(this.toSeq(s, args[1], node), (s2, q) => this.callFn(s2, recv.fn, args[0], q.els ?? [{ k: 'spread', t: q.t }], node));
        break;
      case 'prom': return this.promMethod(s, recv, name, args, node);
      case 'regex': return this.regexMethod(s, recv, name, args, node);
      case 'global': case 'builtin': case 'extname': return this.callGlobal(s, { k: 'builtin', name: `${recv.name}.${name}` }, args, node);
      case 'val': return this.cases(s, recv, ['Str', 'Arr', 'Num', 'VBool', 'Undef', 'Null', 'Obj']).flatMap(([s2, w]) => {
        if (w.k === 'undef' || w.k === 'null') return [throwO(s2, S('TypeError: method of undefined'))];
        if (w.k === 'val') throw new Unsupported(`method ${name} of an unknown value`, node);
        if (w.k === 'obj' && name !== 'hasOwnProperty') return [throwO(s2, S('TypeError: not a function'))];
        return this.callMethod(s2, w, name, args, node);
      });
      case 'ref': {
        const c = s.get(recv.id);
        if (c.kind === 'arr') return this.arrMethod(s, recv, name, args, node);
        if (c.kind === 'map') return this.mapMethod(s, recv, c, name, args, node);
        if (c.kind === 'set') return this.setMethod(s, recv, c, name, args, node);
        if (name === 'hasOwnProperty') return this.hasKey(s, recv, args[0], node);
        if (c.date) {
          if (name === 'getTime' || name === 'valueOf') return this.toNum(s, c.date);
          return [norm(s, VAL(T.uf('date_' + name, [this.toVal(s, c.date)], 'Val')))];
        }
        if (c.ext) return this.callExt(s, recv, name, args, node, null);
      }
    }
    throw new Unsupported(`method ${name} of ${recv.k}`, node);
  },
  strMethod(s, recv, name, args, node) {
    const t = recv.t;
    const a = (i) => args[i] ?? U;
    const lit = t.op === 'str' && args.every((x) => (x.k === 'str' || x.k === 'int') && (x.t.op === 'str' || x.t.op === 'int'));
    if (lit && ['toLowerCase', 'toUpperCase', 'trim', 'startsWith', 'endsWith', 'includes', 'slice', 'substring', 'indexOf', 'charAt', 'charCodeAt', 'repeat', 'padStart', 'replace', 'lastIndexOf', 'split', 'replaceAll'].includes(name)) {
      const r = t.extra[name](...args.map((x) => (x.k === 'str' ? x.t.extra : Number(x.t.extra))));
      if (typeof r === 'string') return [norm(s, S(r))];
      if (typeof r === 'number') return [norm(s, Number.isNaN(r) ? NANV : I(r))];
      if (typeof r === 'boolean') return [norm(s, B(r))];
      if (Array.isArray(r)) return this.mkArray(s, r.map((x) => S(x)));
    }
    const L = T.sop('str.len', [t], 'Int');
    const str = (i) => this.toStr(s, a(i));
    switch (name) {
      case 'toString': case 'valueOf': return [norm(s, recv)];
      case 'toLowerCase': case 'toUpperCase': case 'trim': {
        const r = T.uf(name, [t], 'String');
        return [norm(s.assume(T.eq(T.uf(name, [r], 'String'), r)), S(r))];
      }
      case 'trimEnd': case 'trimStart': return [norm(s, S(T.uf(name, [t], 'String')))];
      case 'startsWith': if (args.length === 1) return [norm(s, B(T.sop('str.prefixof', [str(0), t], 'Bool')))]; break;
      case 'endsWith': return [norm(s, B(T.sop('str.suffixof', [str(0), t], 'Bool')))];
      case 'includes': return [norm(s, B(T.sop('str.contains', [t, str(0)], 'Bool')))];
      case 'indexOf': return [norm(s, I(T.sop('str.indexof', [t, str(0), args[1] ? T.toInt(a(1).t) : T.int(0)], 'Int')))];
      case 'lastIndexOf': return [norm(s, I(T.uf('lastIndexOf', [t, str(0)], 'Int')))];
      case 'charAt': return [norm(s, S(T.sop('str.at', [t, T.toInt(a(0).t)], 'String')))];
      case 'charCodeAt': {
        const i = T.toInt((args[0] ?? I(0)).t);
        const out = [];
        for (const [s2, ok] of this.fork(s, T.and(T.cmp('<=', T.int(0), i), T.cmp('<', i, L)))) {
          if (!ok) { out.push(norm(s2, NANV)); continue; }
          const c = T.app('str.to_code', [T.sop('str.at', [t, i], 'String')], 'Int');
          const bvT = T.uf('code_at', [t, i], 'BV32');
          // UTF-16 code unit as a 32-bit vector
          let s3 = s2.assume(T.app('bvult', [bvT, T.bv(65536)], 'Bool'));
          if (!this.opts.codeBv) s3 = s3.assume(T.eq(T.app('bv2nat', [bvT], 'Int'), c));
          out.push(norm(s3, W(bvT, true)));
        }
        return out;
      }
      case 'slice': case 'substring': case 'substr': {
        const num = (v, d) => (v.k === 'undef' ? d : v.k === 'int' ? v.t : v.k === 'num' ? T.toInt(v.t) : null);
        const i0 = num(a(0), T.int(0)), i1 = args.length > 1 ? num(a(1), null) : null;
        if (i0 === null) break;
        const clamp = (x, neg) => {
          if (x.op === 'int') { const n = Number(x.extra); if (n >= 0) return x; if (neg) return T.ite(T.cmp('<=', T.int(0), T.add(L, x)), T.add(L, x), T.int(0)); return T.int(0); }
          return T.ite(T.cmp('<', x, T.int(0)), neg ? T.ite(T.cmp('<=', T.int(0), T.add(L, x)), T.add(L, x), T.int(0)) : T.int(0), x);
        };
        const from = clamp(i0, name !== 'substring');
        let cnt;
        if (name === 'substr') cnt = i1 ?? L;
        else if (i1 === null) cnt = T.sub(L, from);
        else cnt = T.sub(clamp(i1, name === 'slice'), from);
        if (name === 'substring' && i1 && !(i0.op === 'int' && i0.extra === '0')) { const lo = T.ite(T.cmp('<=', from, clamp(i1)), from, clamp(i1)), hi = T.ite(T.cmp('<=', from, clamp(i1)), clamp(i1), from); return [norm(s, S(T.sop('str.substr', [t, lo, T.sub(hi, lo)], 'String')))]; }
        return [norm(s, S(T.sop('str.substr', [t, from, cnt], 'String')))];
      }
      case 'split': {
        // a text put together from parts, split at a character that occurs in literal parts only
        if (!args[1] && a(0).k === 'str' && a(0).t.op === 'str' && a(0).t.extra.length === 1 && t.op === 'str.++') {
          const d = a(0).t, vars = t.args.filter((p) => p.op !== 'str');
          return this.tryMerge(s, this.fork(s, T.and(vars.map((p) => T.not(T.sop('str.contains', [p, d], 'Bool'))))).flatMap(([s2, plain]) => {
            if (!plain) return this.strMethod(s2, S(T.uf('same_text', [t], 'String')), name, args, node);
            const pieces = [[]];
            for (const p of t.args) { if (p.op !== 'str') { pieces.at(-1).push(p); continue; } p.extra.split(d.extra).forEach((x, i) => { if (i) pieces.push([]); pieces.at(-1).push(T.str(x)); }); }
            return [this.mkArray(s2, pieces.map((x) => S(T.sconcat(x))))].flat();
          }));
        }
        const r = T.uf('split', [t, this.patTerm(s, a(0)), args[1] ? this.toVal(s, args[1]) : T.V.Undef()], 'Seq');
        let s2 = s;
        const j = T.fresh('j', 'Int');
        s2 = s2.assume(this.quant(j, T.implies(T.and(T.cmp('<=', T.int(0), j), T.cmp('<', j, T.len(r))), T.is('Str', T.nth(r, j)))));
        if (!args[1] && a(0).k === 'str' && a(0).t.op === 'str' && a(0).t.extra !== '') s2 = s2.assume(T.cmp('<=', T.int(1), T.len(r)));
        const [s3, ref] = this.alloc(s2, { kind: 'arr', t: r, ty: { k: 'arr', el: () => ({ k: 'str' }) } });
        return [norm(s3, ref)];
      }
      case 'replace': case 'replaceAll':
        if (a(0).k === 'str' && a(1).k === 'str') return [norm(s, S(T.sop(name === 'replace' ? 'str.replace' : 'str.replace_all', [t, a(0).t, a(1).t], 'String')))];
        if (a(1).k === 'fn') { return [norm(s, S(T.uf(`${name}_fn${this.fnId(a(1).fn)}`, [t, this.patTerm(s, a(0))], 'String')))]; }
        return [norm(s, S(T.uf(name + '_rx', [t, this.patTerm(s, a(0)), this.toStr(s, a(1))], 'String')))];
      case 'match': case 'search': { const r = T.uf('str_' + name, [t, this.patTerm(s, a(0))], 'Val'); let s2 = s.assume(T.not(T.is('Absent', r))); if (name === 'match') s2 = s2.assume(T.or(T.is('Null', r), T.is('Arr', r))); return [norm(s2, VAL(r, name === 'match' ? { k: 'union', types: [{ k: 'null' }, { k: 'arr', el: () => ({ k: 'union', types: [{ k: 'str' }, { k: 'undef' }] }) }] } : undefined))]; }
      case 'padStart': case 'padEnd': case 'repeat': case 'localeCompare': case 'normalize': case 'concat': {
        if (name === 'concat') return [norm(s, S(T.sconcat([t, ...args.map((x) => this.toStr(s, x))])))];
        if (name === 'localeCompare') return [norm(s, R(T.uf('localeCompare', [t, str(0)], 'Real')))];
        return [norm(s, S(T.uf(name, [t, ...args.map((x) => this.toVal(s, x))], 'String')))];
      }
    }
    throw new Unsupported(`string method ${name}`, node);
  },
  patTerm(s, v) { return v.k === 'regex' ? v.t : this.toVal(s, v); },
  regexMethod(s, r, name, args, node) {
    const t = this.toStr(s, args[0] ?? U);
    const rx = name === 'test' && this.opts.regexes && r.lit && r.lit.endsWith('/') ? regexToSmt(r.lit.slice(1, -1)) : null; // contract option regexes: literal expressions of the translated subset are exact
    if (rx) return [norm(s, B(T.inRe(t, rx)))];
    if (name === 'test') return [norm(s, B(T.uf('rx_test', [r.t, t], 'Bool')))];
    if (name === 'exec') {
      const m = T.uf('rx_groups', [r.t, t], 'Seq');
      const ok = T.uf('rx_test', [r.t, t], 'Bool');
      const out = [];
      for (const [s2, b] of this.fork(s, ok)) {
        if (!b) { out.push(norm(s2, N)); continue; }
        const j = T.fresh('j', 'Int');
        const s3 = s2.assume(T.cmp('<=', T.int(1), T.len(m))).assume(this.quant(j, T.implies(T.and(T.cmp('<=', T.int(0), j), T.cmp('<', j, T.len(m))), T.or(T.is('Str', T.nth(m, j)), T.is('Undef', T.nth(m, j))))));
        out.push(norm(s3, ARR(m, { k: 'arr', el: () => ({ k: 'union', types: [{ k: 'str' }, { k: 'undef' }] }) })));
      }
      return this.tryMergeExec(s, out);
    }
    throw new Unsupported(`regex method ${name}`, node);
  },
  tryMergeExec(s, outs) { return this.tryMerge(s, outs); },
  mapMethod(s, recv, c, name, args, node) {
    const kv = () => this.toVal(s, args[0] ?? U);
    const valTy = c.ty?.val ? c.ty.val() : anyType;
    switch (name) {
      case 'get': {
        const raw = T.select(c.t, kv());
        return this.typedRead(s, raw, valTy.k === 'any' ? null : { type: valTy, optional: true });
      }
      case 'has': return [norm(s, B(T.not(T.is('Absent', T.select(c.t, kv())))))];
      case 'set': {
        const s2 = this.freeze(this.freeze(s, args[0]), args[1]);
        return [norm(s2.set(recv.id, { ...c, t: T.store(c.t, kv(), this.toVal(s2, args[1])) }), recv)];
      }
      case 'delete': { const had = T.not(T.is('Absent', T.select(c.t, kv()))); return [norm(s.set(recv.id, { ...c, t: T.store(c.t, kv(), T.V.Absent()) }), B(had))]; }
      case 'clear': return [norm(s.set(recv.id, { ...c, t: T.emptyVMap() }), U)];
      case 'entries': case 'values': case 'keys': {
        const [s1, ks] = this.mapKeySeq(s, c.t);
        let t = ks, s2 = s1;
        if (name !== 'keys') {
          const j = T.fresh('j', 'Int');
          const key = T.nth(ks, j), val = T.rd(T.select(c.t, key)), n = T.len(ks);
          [s2, t] = this.flatTerm(s1, T.unit(name === 'values' ? val : T.ctor('Arr', T.concat(T.unit(key), T.unit(val)))), j, n);
        }
        const kt = c.ty?.key ? c.ty.key() : anyType;
        const [s3, r] = this.alloc(s2, { kind: 'arr', t, ty: { k: 'arr', el: () => (name === 'keys' ? kt : name === 'values' ? valTy : { k: 'arr', el: () => anyType, tuple: [() => kt, () => valTy] }) } });
        return [norm(s3, r)];
      }
      case 'forEach': return this.then(this.mapMethod(s, recv, c, 'entries', [], node), (s2, es) => this.then(this.toSeq(s2, es, node), (s3, q) => this.iterate(s3, q, (s4, el) => this.then(this.readKey(s4, el, I(0), node), (s5, k) => this.then(this.readKey(s5, el, I(1), node), (s6, v) => this.then(this.invoke(s6, args[0], U, [v, k], node), (s7) => [norm(s7, U)]))), node)));
    }
    throw new Unsupported(`Map.${name}`, node);
  },
  mapKeySeq(s, m) {
    if (m.op === 'emptyVMap') return [s, T.emptySeq()];
    const t = T.uf('mapKeys', [m], 'Seq');
    const j = T.fresh('kj', 'Int'), k = T.cst('$kv', 'Val');
    const idx = (x) => T.uf('mapKeyIdx', [m, x], 'Int');
    const inR = (x) => T.and(T.cmp('<=', T.int(0), x), T.cmp('<', x, T.len(t)));
    const el = T.nth(t, j);
    let s2 = s.assume(this.quant(j, T.implies(inR(j), T.and(T.not(T.is('Absent', T.select(m, el))), T.eq(idx(el), j)))));
    s2 = s2.assume(this.quant(k, T.implies(T.not(T.is('Absent', T.select(m, k))), T.and(inR(idx(k)), T.eq(T.nth(t, idx(k)), k)))));
    return [s2, t];
  },
  setMethod(s, recv, c, name, args, node) {
    const kv = () => this.toVal(s, args[0] ?? U);
    const mem = (x) => T.app('select', [c.t, x], 'Bool');
    const memb = (x) => { let cur = c.t; while (cur.op === 'store') { const e = T.decideEq(cur.args[1], x); if (e === true) return cur.args[2]; if (e === false) { cur = cur.args[0]; continue; } break; } if (cur.op === 'emptyVSet') return T.FALSE(); return T.app('select', [cur, x], 'Bool'); };
    switch (name) {
      case 'has': return [norm(s, B(memb(kv())))];
      case 'add': {
        const s2 = this.freeze(s, args[0]);
        const had = memb(kv());
        return [norm(s2.set(recv.id, { ...c, of: undefined, t: T.mk('store', [c.t, kv(), T.TRUE()], 'VSet'), keys: T.ite(had, c.keys, T.concat(c.keys, T.unit(kv()))) }), recv)];
      }
      case 'delete': return [norm(s.set(recv.id, { ...c, of: undefined, t: T.mk('store', [c.t, kv(), T.FALSE()], 'VSet'), keys: T.ite(memb(kv()), T.uf('seqRemove', [c.keys, kv()], 'Seq'), c.keys) }), B(memb(kv())))];
      case 'clear': return [norm(s.set(recv.id, { ...c, of: undefined, t: T.mk('emptyVSet', [], 'VSet'), keys: T.emptySeq() }), U)];
      case 'forEach': case 'values': case 'keys': case 'entries':
        if (name === 'forEach') return this.then(this.toSeq(s, recv, node), (s3, q) => this.iterate(s3, q, (s4, el) => this.then(this.invoke(s4, args[0], U, [el, el], node), (s5) => [norm(s5, U)]), node));
        { const [s2, r] = this.alloc(s, { kind: 'arr', t: c.keys, ty: c.ty?.el ? { k: 'arr', el: c.ty.el } : undefined }); return [norm(s2, r)]; }
    }
    throw new Unsupported(`Set.${name}`, node);
  },
  // the members of a filtered list are the members of the list that pass, in both directions
  filterFacts(s, S0, R0, n, et, cb) {
    const j = T.fresh('fj', 'Int'), rng = (i, m) => T.and(T.cmp('<=', T.int(0), i), T.cmp('<', i, m));
    const [s1, el] = this.typedEl(s, T.nth(S0, j), et);
    const outs = cb(s1, [el, I(j)]);
    if (outs.some((o) => o.c !== 'norm' || !this.heapPure(s1, o.s))) return s;
    const c = T.or(...outs.map((o) => T.and(...o.s.since(s1.pc).map((p) => p.t), this.truthy(o.s, o.v))));
    const at = (i) => T.subst(c, new Map([[j.id, i]]));
    const src = (i) => T.uf('filter_src', [R0, i], 'Int'), dst = (i) => T.uf('filter_dst', [R0, i], 'Int'), m = T.len(R0);
    s = s.assume(this.quant(j, T.implies(rng(j, m), T.and(rng(src(j), n), T.eq(T.nth(R0, j), T.nth(S0, src(j))), at(src(j))))), 'f');
    return s.assume(this.quant(j, T.implies(T.and(rng(j, n), at(j)), T.and(rng(dst(j), m), T.eq(T.nth(R0, dst(j)), T.nth(S0, j))))), 'f');
  },
  arrMethod(s, recv, name, args, node) {
    const a = (i) => args[i] ?? U;
    const chunk = recv.k === 'ref' ? s.get(recv.id) : null;
    const els = chunk ? chunk.els : T.seqElems(recv.t)?.map((t) => this.fromVal(t, recv.ty ? elemType(recv.ty) : undefined));
    const ty = chunk ? chunk.ty : recv.ty;
    const seq = () => (chunk ? (chunk.els ? this.seqOf(s, recv.id) : chunk.t) : recv.t);
    const et = ty ? elemType(ty) : anyType;
    const q = els ? { els } : { t: seq(), elTy: et };
    const n = els ? T.int(els.length) : T.len(seq());
    const need = () => { if (!chunk) { this.frameViolation(s, `Array.${name} on input data`, node); throw new Unsupported(`${name} mutates data owned by the caller (frame condition)`, node); } if (chunk.frozen) throw new Unsupported(`${name} on a stored array`, node); };
    const cb = (s2, extra) => this.invoke(s2, a(0), U, extra, node);
    const newArr = (s2, t, ty2) => { const [s3, r] = this.alloc(s2, { kind: 'arr', t, ty: ty2 }); return [norm(s3, r)]; };
    switch (name) {
      case 'push': {
        need();
        if (chunk.els && !args.some((x) => x.k === 'spread')) return [norm(s.set(recv.id, { ...chunk, els: [...chunk.els, ...args] }), I(T.int(chunk.els.length + args.length)))];
        let s2 = s;
        for (const x of args) s2 = this.freeze(s2, x);
        if (chunk.els) for (const x of chunk.els) s2 = this.freeze(s2, x);
        const t = T.concat(seq(), ...args.map((x) => (x.k === 'spread' ? x.t : T.unit(this.toVal(s2, x)))));
        return [norm(s2.set(recv.id, { kind: 'arr', t, ty: chunk.els && chunk.els.length === 0 ? (args.length === 1 && args[0].k === 'spread' && args[0].ty ? { k: 'arr', el: () => args[0].ty } : chunk.ty) : chunk.ty }), I(T.len(t)))];
      }
      case 'unshift': {
        need();
        if (chunk.els) return [norm(s.set(recv.id, { ...chunk, els: [...args, ...chunk.els] }), I(T.int(chunk.els.length + args.length)))];
        let s2 = s; for (const x of args) s2 = this.freeze(s2, x);
        const t = T.concat(...args.map((x) => T.unit(this.toVal(s2, x))), chunk.t);
        return [norm(s2.set(recv.id, { ...chunk, t }), I(T.len(t)))];
      }
      case 'pop': case 'shift': {
        need();
        if (chunk.els) { if (!chunk.els.length) return [norm(s, U)]; const e2 = name === 'pop' ? chunk.els.slice(0, -1) : chunk.els.slice(1); return [norm(s.set(recv.id, { ...chunk, els: e2 }), name === 'pop' ? chunk.els[chunk.els.length - 1] : chunk.els[0])]; }
        const out = [];
        for (const [s2, em] of this.fork(s, T.eq(n, T.int(0)))) {
          if (em) { out.push(norm(s2, U)); continue; }
          const t = name === 'pop' ? T.extract(chunk.t, T.int(0), T.sub(n, T.int(1))) : T.extract(chunk.t, T.int(1), T.sub(n, T.int(1)));
          const [s3, v] = this.typedEl(s2, T.nth(chunk.t, name === 'pop' ? T.sub(n, T.int(1)) : T.int(0)), et);
          out.push(norm(s3.set(recv.id, { ...chunk, t }), v));
        }
        return out;
      }
      case 'slice': {
        if (els && args.every((x) => x.k === 'int' && x.t.op === 'int')) return this.mkArray(s, els.slice(...args.map((x) => Number(x.t.extra))));
        const num = (v) => (v.k === 'int' ? v.t : v.k === 'num' ? T.toInt(v.t) : v.k === 'undef' ? null : (() => { throw new Unsupported('slice bound', node); })());
        const clampNeg = (x) => (x.op === 'int' && Number(x.extra) >= 0 ? T.ite(T.cmp('<=', x, n), x, n) : T.ite(T.cmp('<', x, T.int(0)), T.ite(T.cmp('<=', T.int(0), T.add(n, x)), T.add(n, x), T.int(0)), T.ite(T.cmp('<=', x, n), x, n)));
        const from = args.length && num(a(0)) ? clampNeg(num(a(0))) : T.int(0);
        const to = args.length > 1 && num(a(1)) ? clampNeg(num(a(1))) : n;
        const t = from.op === 'int' && from.extra === '0' && to === n ? seq() : T.ite(T.cmp('<', from, to), T.mk('seq.extract', [seq(), from, T.sub(to, from)], 'Seq'), T.emptySeq());
        return newArr(s, t, ty);
      }
      case 'splice': {
        need();
        const num = (v) => (v.k === 'int' ? v.t : T.toInt(v.t));
        const cl = (x) => T.ite(T.cmp('<', x, T.int(0)), T.ite(T.cmp('<=', T.int(0), T.add(n, x)), T.add(n, x), T.int(0)), T.ite(T.cmp('<=', x, n), x, n));
        const from = cl(num(a(0)));
        const rest = T.sub(n, from);
        const dc = args.length > 1 ? num(a(1)) : rest;
        const cnt = T.ite(T.cmp('<', dc, T.int(0)), T.int(0), T.ite(T.cmp('<=', dc, rest), dc, rest));
        const sq = seq();
        const removed = T.mk('seq.extract', [sq, from, cnt], 'Seq');
        const end = T.add(from, cnt);
        let s2 = s; for (const x of args.slice(2)) s2 = this.freeze(s2, x);
        const t = T.concat(T.mk('seq.extract', [sq, T.int(0), from], 'Seq'), ...args.slice(2).map((x) => T.unit(this.toVal(s2, x))), T.mk('seq.extract', [sq, end, T.sub(n, end)], 'Seq'));
        s2 = s2.set(recv.id, { kind: 'arr', t, ty });
        return newArr(s2, removed, ty);
      }
      case 'concat': return this.then([norm(s, U)], (s1) => {
        let outs = [norm(s1, els ? [...els] : [{ k: 'spread', t: seq(), ty: et }])];
        for (const x of args) outs = this.then(outs, (s2, acc) => {
          if (x.k === 'arr' || (x.k === 'ref' && s2.get(x.id).kind === 'arr')) return this.then(this.spreadEls(s2, x, node), (s3, ys) => [norm(s3, [...acc, ...ys])]);
          return [norm(s2, [...acc, x])];
        });
        return this.then(outs, (s2, vs) => this.mkArray(s2, vs));
      });
      case 'includes': case 'indexOf': {
        const x = a(0);
        if (els) {
          let acc = name === 'includes' ? T.FALSE() : T.int(-1);
          for (let i = els.length - 1; i >= 0; i--) { const e = this.strictEq(s, els[i], x); acc = name === 'includes' ? T.or(e, acc) : T.ite(e, T.int(i), acc); }
          return [norm(s, name === 'includes' ? B(acc) : I(acc))];
        }
        const j = T.fresh('j', 'Int');
        const [s2, v] = this.typedEl(s, T.nth(seq(), j), et);
        const e = this.strictEq(s2, v, x);
        const all = this.quant(j, T.implies(T.and(T.cmp('<=', T.int(0), j), T.cmp('<', j, n)), T.not(e)));
        if (name === 'includes') return [norm(s, B(T.not(all)))];
        const out = [];
        for (const [s3, none] of this.fork(s, all)) {
          if (none) out.push(norm(s3, I(-1)));
          else { const i = this.firstTerm(T.not(e), j, n); out.push(norm(s3.assume(T.and(T.cmp('<=', T.int(0), i), T.cmp('<', i, n))).assume(T.subst(e, new Map([[j.id, i]]))).assume(this.quant(j, T.implies(T.and(T.cmp('<=', T.int(0), j), T.cmp('<', j, i)), T.not(e)))), I(i))); }
        }
        return this.tryMerge(s, out);
      }
      case 'some': case 'every': {
        const outs = this.iterate(s, q, (s2, el, j) => {
          const r = [];
          for (const o of cb(s2, [el, j])) {
            if (o.c !== 'norm') { r.push(o); continue; }
            const c = this.truthy(o.s, o.v);
            for (const [s3, b] of this.fork(o.s, c)) r.push(b === (name === 'some') ? { s: s3, c: 'found', v: B(name === 'some') } : norm(s3, U));
          }
          return this.joinKinds(s2, r);
        }, node);
        return this.tryMerge(s, outs.map((o) => (o.c === 'found' ? norm(o.s, o.v) : o.c === 'norm' ? norm(o.s, B(name === 'every')) : o)));
      }
      case 'find': case 'findIndex': {
        const outs = this.iterate(s, q, (s2, el, j) => {
          const r = [];
          for (const o of cb(s2, [el, j])) {
            if (o.c !== 'norm') { r.push(o); continue; }
            for (const [s3, b] of this.fork(o.s, this.truthy(o.s, o.v))) r.push(b ? { s: s3, c: 'found', v: name === 'find' ? el : j } : norm(s3, U));
          }
          return r;
        }, node);
        return this.tryMerge(s, outs.map((o) => (o.c === 'found' ? norm(o.s, o.v) : o.c === 'norm' ? norm(o.s, name === 'find' ? U : I(-1)) : o)));
      }
      case 'forEach': return this.then(this.iterate(s, q, (s2, el, j) => this.then(cb(s2, [el, j]), (s3) => [norm(s3, U)]), node), (s2) => [norm(s2, U)]);
      case 'map': case 'filter': case 'flatMap': {
        const [s1, r] = this.alloc(s, { kind: 'arr', els: [] });
        const outTy = name === 'filter' ? ty : null;
        const elTypes = [];
        return this.then(this.iterate(s1, q, (s2, el, j) => this.then(cb(s2, [el, j]), (s3, v) => {
          if (name === 'map') { elTypes.push(v); return this.then(this.arrMethod(s3, r, 'push', [v], node), (s4) => [norm(s4, U)]); }
          if (name === 'filter') {
            const out = [];
            for (const [s4, b] of this.fork(s3, this.truthy(s3, v))) { if (b) out.push(...this.then(this.arrMethod(s4, r, 'push', [el], node), (s5) => [norm(s5, U)])); else out.push(norm(s4, U)); }
            return out;
          }
          if (v.k === 'arr' || (v.k === 'ref' && s3.get(v.id).kind === 'arr') || v.k === 'val') return this.then(this.spreadEls(s3, v, node), (s4, ys) => this.then(this.arrMethod(s4, r, 'push', ys, node), (s5) => [norm(s5, U)]));
          return this.then(this.arrMethod(s3, r, 'push', [v], node), (s4) => [norm(s4, U)]);
        }), node), (s2) => {
          const c = s2.get(r.id);
          if (c.els) return [norm(s2, r)];
          let ty2 = name === 'filter' ? ty : this.mapTy(elTypes);
          if (name === 'filter' && this.opts.filterFacts && !els) s2 = this.filterFacts(s2, seq(), c.t, n, et, cb);
          return [norm(s2.set(r.id, { ...c, ty: ty2 }), r)];
        });
      }
      case 'reduce': {
        let init = args.length > 1 ? args[1] : null;
        if (!init) throw new Unsupported('reduce without an initial value', node);
        const [s1, sc] = this.newScope(s, null);
        const s2 = this.declare(s1, sc, 'acc', init);
        const outs = this.iterate(s2, q, (s3, el, j) => this.then(this.invoke(s3, a(0), U, [s3.get(sc).vars.get('acc'), el, j], node), (s4, v) => [norm(this.declare(s4, sc, 'acc', v), U)]), node);
        return this.then(outs, (s3) => [norm(s3, s3.get(sc).vars.get('acc'))]);
      }
      case 'join': {
        if (els) {
          const sep = args.length ? this.toStr(s, a(0)) : T.str(',');
          const parts = [];
          els.forEach((v, i) => { if (i) parts.push(sep); parts.push(v.k === 'undef' || v.k === 'null' ? T.str('') : v.k === 'val' ? T.ite(this.nullish(v), T.str(''), this.toStr(s, v)) : this.toStr(s, v)); });
          return [norm(s, S(T.sconcat(parts)))];
        }
        return [norm(s, S(T.uf('join', [seq(), args.length ? this.toStr(s, a(0)) : T.str(',')], 'String')))];
      }
      case 'sort': {
        if (!args.length || a(0).k === 'undef') {
          if (els && els.length < 2) return [norm(s, recv)];
          const t = T.uf('sorted', [seq()], 'Seq');
          if (chunk) return [norm(s.set(recv.id, { kind: 'arr', t, ty }), recv)];
        }
        if (chunk && els && els.length < 2) return [norm(s, recv)];
        if (this.opts.sort) { const r = this.opts.sort(this, s, recv, chunk, a(0), node); if (r) return r; }
        throw new Unsupported('sort with a comparator', node);
      }
      case 'reverse': if (chunk && els) return [norm(s.set(recv.id, { ...chunk, els: [...els].reverse() }), recv)]; need(); return [norm(s.set(recv.id, { kind: 'arr', t: T.uf('reversed', [seq()], 'Seq'), ty }), recv)];
      case 'keys': case 'entries': case 'values': if (name === 'values') return [norm(s, recv)]; break;
      case 'toString': return [norm(s, S(T.uf('val2str', [this.toVal(s, recv)], 'String')))];
      case 'at': if (a(0).k === 'int' && a(0).t.op === 'int' && Number(a(0).t.extra) < 0) return this.readKey(s, recv, I(T.add(n, a(0).t)), node); return this.readKey(s, recv, a(0), node);
      case 'flat': break;
    }
    throw new Unsupported(`array method ${name}`, node);
  },
  // merge outcomes of the same kind
  joinKinds(base, outs) {
    const groups = new Map();
    for (const o of outs) { const k = o.c; if (!groups.has(k)) groups.set(k, []); groups.get(k).push(o); }
    const res = [];
    for (const [k, g] of groups) {
      if (g.length === 1 || k === 'throw') { res.push(...g); continue; }
      const j = this.joinPure(base, g.map((o) => o.s));
      if (j.length === 1) res.push({ ...g[0], s: j[0] }); else res.push(...g);
    }
    return res;
  },
  mapTy(vs) {
    if (!vs.length) return undefined;
    const k = vs[0].k;
    const same = vs.every((v) => v.k === k);
    if (same && k === 'str') return { k: 'arr', el: () => ({ k: 'str' }) };
    if (same && (k === 'bool')) return { k: 'arr', el: () => ({ k: 'bool' }) };
    return undefined;
  },
};
Object.assign(Exec.prototype, P);
