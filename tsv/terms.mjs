// Hash-consed SMT terms with light simplification, and SMT-LIB printing.
// Sorts: Bool Int Real String Val Seq (= Seq Val) Dict (= Array String Val) VMap (= Array Val Val) BV32
let table = new Map();
let nextId = 1;
export function resetTerms() { table = new Map(); nextId = 1; }

export function mk(op, args, sort, extra) {
  let key = op + '|' + (extra ?? '') + '|' + sort;
  for (const a of args) key += ',' + a.id;
  let t = table.get(key);
  if (!t) {
    t = { op, args, sort, extra, id: nextId++ };
    table.set(key, t);
  }
  return t;
}

export const TRUE = () => mk('true', [], 'Bool');
export const FALSE = () => mk('false', [], 'Bool');
export const bool = (b) => (b ? TRUE() : FALSE());
export const isT = (t) => t.op === 'true';
export const isF = (t) => t.op === 'false';
export const int = (n) => mk('int', [], 'Int', String(BigInt(n)));
export const real = (n) => mk('real', [], 'Real', Object.is(n, -0) ? '0' : String(n));
export const str = (s) => mk('str', [], 'String', s);
export const cst = (name, sort) => mk('const', [], sort, name);
export const bv = (n) => mk('bv', [], 'BV32', String(n >>> 0));
let freshCtr = 0;
export function resetFresh() { freshCtr = 0; }
export function freshMark() { return freshCtr; }
export function fresh(base, sort) {
  const name = `${base.replace(/[^A-Za-z0-9_]/g, '_')}!${++freshCtr}`;
  return cst(name, sort);
}
export function freshStamp(t) { // stamp of a fresh constant, or 0
  if (t.op !== 'const') return 0;
  const m = /!(\d+)$/.exec(t.extra);
  return m ? +m[1] : 0;
}

const isLit = (t) => t.op === 'int' || t.op === 'real' || t.op === 'str' || t.op === 'true' || t.op === 'false' || t.op === 'bv';
const CTORS = new Set(['Absent', 'Undef', 'Null', 'NaN', 'PInf', 'NInf', 'VBool', 'Num', 'Str', 'Arr', 'Obj', 'Ref', 'Fn', 'I32']);
export const isCtor = (t) => CTORS.has(t.op);

// distinctness decided syntactically: true (equal) / false (different) / null (unknown)
export function decideEq(a, b) {
  if (a === b) return true;
  if (isLit(a) && isLit(b) && a.sort === b.sort) {
    if (a.sort === 'Real') return Number(a.extra) === Number(b.extra);
    return false;
  }
  if (isCtor(a) && isCtor(b)) {
    if (a.op !== b.op) return false;
    if (a.args.length === 0) return true;
    const r = decideEq(a.args[0], b.args[0]);
    return r;
  }
  return null;
}

export function not(a) {
  if (isT(a)) return FALSE();
  if (isF(a)) return TRUE();
  if (a.op === 'not') return a.args[0];
  return mk('not', [a], 'Bool');
}
export function and(...xs) {
  const out = [];
  const seen = new Set();
  const add = (x) => {
    if (isT(x)) return true;
    if (isF(x)) return false;
    if (x.op === 'and') { for (const y of x.args) if (!add(y)) return false; return true; }
    if (seen.has(x.id)) return true;
    seen.add(x.id);
    out.push(x);
    return true;
  };
  for (const x of xs.flat()) if (!add(x)) return FALSE();
  for (const x of out) if (x.op === 'not' && seen.has(x.args[0].id)) return FALSE();
  if (out.length === 0) return TRUE();
  if (out.length === 1) return out[0];
  return mk('and', out, 'Bool');
}
export function or(...xs) {
  const out = [];
  const seen = new Set();
  const add = (x) => {
    if (isF(x)) return true;
    if (isT(x)) return false;
    if (x.op === 'or') { for (const y of x.args) if (!add(y)) return false; return true; }
    if (seen.has(x.id)) return true;
    seen.add(x.id);
    out.push(x);
    return true;
  };
  for (const x of xs.flat()) if (!add(x)) return TRUE();
  for (const x of out) if (x.op === 'not' && seen.has(x.args[0].id)) return TRUE();
  if (out.length === 0) return FALSE();
  if (out.length === 1) return out[0];
  return mk('or', out, 'Bool');
}
export const implies = (a, b) => (isF(a) || isT(b) ? TRUE() : isT(a) ? b : isF(b) ? not(a) : mk('=>', [a, b], 'Bool'));
export function eq(a, b) {
  if (a.sort !== b.sort) {
    if (a.sort === 'Int' && b.sort === 'Real') a = toReal(a);
    else if (a.sort === 'Real' && b.sort === 'Int') b = toReal(b);
    else throw new Error(`eq sort mismatch ${a.sort} ${b.sort}`);
  }
  const d = decideEq(a, b);
  if (d !== null) return bool(d);
  if (a.sort === 'Bool') {
    if (isT(a)) return b;
    if (isT(b)) return a;
    if (isF(a)) return not(b);
    if (isF(b)) return not(a);
  }
  if (isCtor(a) && isCtor(b) && a.op === b.op) return eq(a.args[0], b.args[0]);
  if (a.op === 'ite' && (isLit(b) || isCtor(b))) return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b));
  if (b.op === 'ite' && (isLit(a) || isCtor(a))) return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]));
  if (a.op === 'to_real' && b.op === 'to_real') return eq(a.args[0], b.args[0]);
  // sorted key lists are equal exactly when the same keys are present
  if (a.op === 'uf' && b.op === 'uf' && a.extra === 'sorted' && b.extra === 'sorted') {
    const x = a.args[0], y = b.args[0], keysOp = (t) => t.op === 'uf' && (t.extra === 'keys' || t.extra === 'ordKeys');
    if (keysOp(x) && keysOp(y)) { const k = bvar('qs', 'String'); return forall([k], eq(is('Absent', select(x.args[0], k)), is('Absent', select(y.args[0], k)))); }
  }
  if (a.id > b.id) [a, b] = [b, a];
  return mk('=', [a, b], 'Bool');
}
export function ite(c, a, b) {
  if (isT(c)) return a;
  if (isF(c)) return b;
  if (a === b) return a;
  if (a.sort !== b.sort) {
    if (a.sort === 'Int' && b.sort === 'Real') a = toReal(a);
    else if (a.sort === 'Real' && b.sort === 'Int') b = toReal(b);
    else throw new Error(`ite sort mismatch ${a.sort} ${b.sort}`);
  }
  if (a.sort === 'Bool') {
    if (isT(a) && isF(b)) return c;
    if (isF(a) && isT(b)) return not(c);
    if (isT(a)) return or(c, b);
    if (isF(a)) return and(not(c), b);
    if (isT(b)) return or(not(c), a);
    if (isF(b)) return and(c, a);
    if (b === c) return and(c, a);
    if (a === c) return or(c, b);
  }
  if (c.op === 'not') return ite(c.args[0], b, a);
  if (a.op === b.op && isCtor(a) && a.args.length === 1) return ctor(a.op, ite(c, a.args[0], b.args[0]));
  return mk('ite', [c, a, b], a.sort);
}
// ---- numbers
export const toReal = (a) => (a.sort === 'Real' ? a : a.op === 'int' ? real(Number(a.extra)) : a.op === 'ite' ? ite(a.args[0], toReal(a.args[1]), toReal(a.args[2])) : mk('to_real', [a], 'Real'));
export const toInt = (a) => (a.sort === 'Int' ? a : a.op === 'to_real' ? a.args[0] : a.op === 'real' ? int(Math.floor(Number(a.extra))) : mk('to_int', [a], 'Int'));
const num2 = (a, b) => (a.sort === b.sort ? [a, b] : [toReal(a), toReal(b)]);
const litv = (t) => (t.op === 'int' || t.op === 'real' ? Number(t.extra) : null);
export function arith(op, a, b) {
  [a, b] = num2(a, b);
  const x = litv(a), y = litv(b);
  if (x !== null && y !== null) {
    let r;
    if (op === '+') r = x + y; else if (op === '-') r = x - y; else if (op === '*') r = x * y;
    if (r !== undefined && Number.isSafeInteger(r)) return a.sort === 'Int' ? int(r) : real(r);
  }
  if (op === '+' && x === 0) return b;
  if ((op === '+' || op === '-') && y === 0) return a;
  if (op === '-' && a === b) return a.sort === 'Int' ? int(0) : real(0);
  if (op === '*' && x === 1) return b;
  if (op === '*' && y === 1) return a;
  // (a + c1) + c2
  if ((op === '+' || op === '-') && y !== null && a.op === '+' && litv(a.args[1]) !== null) {
    return arith('+', a.args[0], a.sort === 'Int' ? int(litv(a.args[1]) + (op === '+' ? y : -y)) : real(litv(a.args[1]) + (op === '+' ? y : -y)));
  }
  if (op === '-' && y !== null && y > 0) return mk('+', [a, a.sort === 'Int' ? int(-y) : real(-y)], a.sort);
  return mk(op, [a, b], a.sort);
}
export const add = (a, b) => arith('+', a, b);
export const sub = (a, b) => arith('-', a, b);
export const mul = (a, b) => arith('*', a, b);
export const rdiv = (a, b) => mk('/', [toReal(a), toReal(b)], 'Real');
export const idiv = (a, b) => (litv(a) !== null && litv(b) ? int(Math.floor(litv(a) / litv(b))) : mk('div', [a, b], 'Int'));
export const imod = (a, b) => mk('mod', [a, b], 'Int');
export function cmp(op, a, b) { // < <= > >=
  if (op === '>') return cmp('<', b, a);
  if (op === '>=') return cmp('<=', b, a);
  [a, b] = num2(a, b);
  const x = litv(a), y = litv(b);
  if (x !== null && y !== null) return bool(op === '<' ? x < y : x <= y);
  if (a === b) return bool(op === '<=');
  if (y === 0 && a.op === 'seq.len' && op === '<') return FALSE();
  if (x === 0 && b.op === 'seq.len' && op === '<=') return TRUE();
  return mk(op, [a, b], 'Bool');
}
// ---- Val
export const V = {
  Absent: () => mk('Absent', [], 'Val'),
  Undef: () => mk('Undef', [], 'Val'),
  Null: () => mk('Null', [], 'Val'),
  NaN: () => mk('NaN', [], 'Val'),
  PInf: () => mk('PInf', [], 'Val'),
  NInf: () => mk('NInf', [], 'Val'),
};
const UNPACK = { VBool: 'b', Num: 'n', Str: 's', Arr: 'a', Obj: 'o', Ref: 'r', Fn: 'f', I32: 'w' };
const UNPSORT = { VBool: 'Bool', Num: 'Real', Str: 'String', Arr: 'Seq', Obj: 'Dict', Ref: 'Int', Fn: 'Int', I32: 'BV32' };
export function ctor(name, arg) {
  if (name === 'Num') arg = toReal(arg);
  if (!arg) return V[name]();
  if (arg.op === 'un' && arg.extra === name) {
    // only sound when the tester is known; keep plain
  }
  return mk(name, [arg], 'Val');
}
export function is(name, v) {
  if (isCtor(v)) return bool(v.op === name);
  if (v.op === 'ite') return ite(v.args[0], is(name, v.args[1]), is(name, v.args[2]));
  if (v.op === 'rd') {
    if (name === 'Absent') return FALSE();
    if (name === 'Undef') return or(is('Undef', v.args[0]), is('Absent', v.args[0]));
    return is(name, v.args[0]);
  }
  return mk('is', [v], 'Bool', name);
}
export function un(name, v) {
  if (v.op === name) return v.args[0];
  if (v.op === 'ite') {
    const a = v.args[1], b = v.args[2];
    if (isCtor(a) && a.op !== name) return un(name, b);
    if (isCtor(b) && b.op !== name) return un(name, a);
    return ite(v.args[0], un(name, a), un(name, b));
  }
  if (v.op === 'rd') return un(name, v.args[0]);
  return mk('un', [v], UNPSORT[name], name);
}
export const rd = (v) => (v.op === 'Absent' ? V.Undef() : isCtor(v) ? v : v.op === 'rd' ? v : v.op === 'ite' ? ite(v.args[0], rd(v.args[1]), rd(v.args[2])) : v.op === 'seq.nth' ? v : mk('rd', [v], 'Val'));
// ---- Dict (Array String Val) / VMap (Array Val Val) / BoolMap (Array Val Bool)
export const emptyDict = () => mk('emptyDict', [], 'Dict');
export const emptyVMap = () => mk('emptyVMap', [], 'VMap');
export function select(d, k) {
  const sort = d.sort === 'VSet' ? 'Bool' : 'Val';
  let cur = d;
  for (;;) {
    if (cur.op === 'store') {
      const e = decideEq(cur.args[1], k);
      if (e === true) return cur.args[2];
      if (e === false) { cur = cur.args[0]; continue; }
      break;
    }
    if (cur.op === 'emptyDict' || cur.op === 'emptyVMap') return V.Absent();
    if (cur.op === 'emptyVSet') return FALSE();
    if (cur.op === 'ite') return ite(cur.args[0], select(cur.args[1], k), select(cur.args[2], k));
    if (cur.op === 'merge') {
      // merge(a,b): b's present keys over a
      const bv_ = select(cur.args[1], k);
      const ab = is('Absent', bv_);
      if (isT(ab)) { cur = cur.args[0]; continue; }
      if (isF(ab)) return bv_;
      return ite(ab, select(cur.args[0], k), bv_);
    }
    break;
  }
  return mk('select', [cur, k], sort);
}
export function store(d, k, v) {
  if (d.op === 'store' && d.args[1] === k) d = d.args[0];
  if (v.op === 'Absent' && (d.op === 'emptyDict' || d.op === 'emptyVMap')) return d;
  return mk('store', [d, k, v], d.sort);
}
// a choice among dictionaries written out key by key (a store chain on the empty dictionary)
const literalDict = (d, n) => (d.op === 'ite' ? n > 1 && literalDict(d.args[1], n / 2) && literalDict(d.args[2], n / 2) : d.op === 'store' ? !(d.args[2].op === 'Absent') && isF(is('Absent', d.args[2])) && literalDict(d.args[0], n) : d.op === 'emptyDict');
export const merge = (a, b) => (b.op === 'emptyDict' ? a : a.op === 'emptyDict' ? b : mergeStores(a, b));
function mergeStores(a, b) {
  // merge over a chain of stores on the right that starts from the empty dict
  if (b.op === 'ite' && literalDict(b, 16)) return ite(b.args[0], merge(a, b.args[1]), merge(a, b.args[2]));
  const chain = [];
  let cur = b;
  while (cur.op === 'store' && cur.args[2].op !== 'Absent' && isF(is('Absent', cur.args[2]))) { chain.push(cur); cur = cur.args[0]; }
  if (cur.op === 'emptyDict') {
    let r = a;
    for (const s of chain.reverse()) r = store(r, s.args[1], s.args[2]);
    return r;
  }
  return mk('merge', [a, b], 'Dict');
}
// ---- Seq
export const emptySeq = () => mk('emptySeq', [], 'Seq');
export const unit = (v) => mk('seq.unit', [v], 'Seq');
export function concat(...xs) {
  const out = [];
  for (const x of xs.flat()) {
    if (x.op === 'emptySeq') continue;
    if (x.op === 'seq.++') out.push(...x.args); else out.push(x);
  }
  if (out.length === 0) return emptySeq();
  if (out.length === 1) return out[0];
  return mk('seq.++', out, 'Seq');
}
export function len(s) {
  if (s.op === 'emptySeq') return int(0);
  if (s.op === 'seq.unit') return int(1);
  if (s.op === 'seq.++') return s.args.map(len).reduce(add);
  if (s.op === 'ite') return ite(s.args[0], len(s.args[1]), len(s.args[2]));
  return mk('seq.len', [s], 'Int');
}
export function nth(s, i) {
  if (s.op === 'seq.unit' && i.op === 'int' && i.extra === '0') return s.args[0];
  if (s.op === 'seq.++' && i.op === 'int') {
    let k = Number(i.extra);
    for (const p of s.args) {
      if (p.op === 'seq.unit') { if (k === 0) return p.args[0]; k--; } else break;
    }
  }
  // an element of a sequence that ends with single elements (reads are guarded by the length)
  if (s.op === 'seq.++' && i.op !== 'int') {
    const last = s.args[s.args.length - 1];
    if (last.op === 'seq.unit') {
      const init = concat(s.args.slice(0, -1));
      return ite(cmp('<', i, len(init)), nth(init, i), last.args[0]);
    }
  }
  return mk('seq.nth', [s, i], 'Val');
}
export function extract(s, off, n) {
  if (off.op === 'int' && off.extra === '0' && n === len(s)) return s;
  if (n.op === 'int' && Number(n.extra) <= 0) return emptySeq();
  return mk('seq.extract', [s, off, n], 'Seq');
}
// elements when s is a concatenation of units only
export function seqElems(s) {
  if (s.op === 'emptySeq') return [];
  if (s.op === 'seq.unit') return [s.args[0]];
  if (s.op === 'seq.++' && s.args.every((a) => a.op === 'seq.unit')) return s.args.map((a) => a.args[0]);
  return null;
}
// ---- strings
export function sconcat(...xs) {
  const out = [];
  for (const x of xs.flat()) {
    if (x.op === 'str.++') { for (const y of x.args) push(y); } else push(x);
  }
  function push(x) {
    if (x.op === 'str' && x.extra === '') return;
    const l = out[out.length - 1];
    if (l && l.op === 'str' && x.op === 'str') out[out.length - 1] = str(l.extra + x.extra);
    else out.push(x);
  }
  if (out.length === 0) return str('');
  if (out.length === 1) return out[0];
  return mk('str.++', out, 'String');
}
// membership in a regular language given as SMT-LIB text
const LANGS = [];
export const inRe = (t, text) => { let k = LANGS.indexOf(text); if (k < 0) k = LANGS.push(text) - 1; return mk('inre', [t], 'Bool', String(k)); };
export const sop = (op, args, sort) => {
  if (op === 'str.contains' && args[0].op === 'uf' && args[0].extra === 'num2str' && args[1].op === 'str' && /[^-+0-9.eINa-z]/.test(args[1].extra)) return FALSE(); // the text of a number
  // the first place of one character in a text put together from parts (an exact law)
  if (op === 'str.indexof' && args[0].op === 'str.++' && args[1].op === 'str' && args[1].extra.length === 1 && args[2].op === 'int' && String(args[2].extra) === '0' && args[0].args.some((p) => p.op === 'str' && p.extra.includes(args[1].extra))) {
    const go = (i, acc) => {
      const p = args[0].args[i];
      if (p.op === 'str') { const k = p.extra.indexOf(args[1].extra); return k >= 0 ? arith('+', acc, int(k)) : go(i + 1, arith('+', acc, int(p.extra.length))); }
      return ite(sop('str.contains', [p, args[1]], 'Bool'), arith('+', acc, sop('str.indexof', [p, args[1], args[2]], 'Int')), go(i + 1, arith('+', acc, sop('str.len', [p], 'Int'))));
    };
    return go(0, int(0));
  }
  // a literal prefix of a number's text, or of a choice of texts
  if (op === 'str.prefixof' && args[0].op === 'str') {
    const [p, x] = args;
    if (x.op === 'uf' && x.extra === 'num2str' && p.extra && !/^[-+0-9.eINa-z]/.test(p.extra)) return FALSE();
    if (x.op === 'ite') return ite(x.args[0], sop(op, [p, x.args[1]], sort), sop(op, [p, x.args[2]], sort));
  }
  if (args.every((a) => isLit(a))) {
    const v = args.map((a) => (a.op === 'str' ? a.extra : Number(a.extra)));
    if (op === 'str.len') return int(v[0].length);
    if (op === 'str.contains') return bool(v[0].includes(v[1]));
    if (op === 'str.prefixof') return bool(v[1].startsWith(v[0]));
    if (op === 'str.suffixof') return bool(v[1].endsWith(v[0]));
  }
  return mk(op, args, sort);
};
export const uf = (name, args, sort) => mk('uf', args, sort, name);
export const app = (op, args, sort) => mk(op, args, sort);
// bound variable
export const bvar = (name, sort) => mk('bvar', [], sort, name);
export const forall = (vars, body, pats) => (isT(body) ? body : mk('forall', [body, ...vars, ...(pats || [])], 'Bool', vars.length + ':' + vars.map((v) => v.extra).join(',')));
export const exists = (vars, body) => (isF(body) ? body : mk('exists', [body, ...vars], 'Bool', vars.length + ':' + vars.map((v) => v.extra).join(',')));

// ---- substitution of constants (Map from term id -> term)
export function subst(t, m, memo = new Map()) {
  const hit = m.get(t.id);
  if (hit) return hit;
  if (t.args.length === 0) return t;
  const c = memo.get(t.id);
  if (c) return c;
  const args = t.args.map((a) => subst(a, m, memo));
  let r;
  if (args.every((a, i) => a === t.args[i])) r = t;
  else r = rebuild(t, args);
  memo.set(t.id, r);
  return r;
}
export function rebuild(t, args) {
  switch (t.op) {
    case 'not': return not(args[0]);
    case 'and': return and(args);
    case 'or': return or(args);
    case '=>': return implies(args[0], args[1]);
    case '=': return eq(args[0], args[1]);
    case 'ite': return ite(...args);
    case 'select': return select(...args);
    case 'store': return store(...args);
    case 'merge': return merge(...args);
    case 'is': return is(t.extra, args[0]);
    case 'un': return un(t.extra, args[0]);
    case 'rd': return rd(args[0]);
    case 'seq.++': return concat(args);
    case 'seq.len': return len(args[0]);
    case 'seq.nth': return nth(...args);
    case 'str.++': return sconcat(args);
    case '+': case '-': case '*': return arith(t.op, args[0], args[1]);
    case '<': case '<=': return cmp(t.op, args[0], args[1]);
    case 'to_real': return toReal(args[0]);
    case 'to_int': return toInt(args[0]);
    default: return mk(t.op, args, t.sort, t.extra);
  }
}
export function constsOf(t, seen = new Set(), out = new Set()) {
  if (seen.has(t.id)) return out;
  seen.add(t.id);
  if (t.op === 'const') out.add(t);
  for (const a of t.args) constsOf(a, seen, out);
  return out;
}

// ---- printing
export const SORT = { Bool: 'Bool', Int: 'Int', Real: 'Real', String: 'String', Val: 'Val', Seq: '(Seq Val)', Dict: '(Array String Val)', VMap: '(Array Val Val)', VSet: '(Array Val Bool)', BV32: '(_ BitVec 32)' };
export function smtStr(s) {
  let o = '"';
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c === 34) o += '""';
    else if (c === 92) o += '\\u{5c}';
    else if (c >= 32 && c < 127) o += s[i];
    else o += `\\u{${c.toString(16)}}`;
  }
  return o + '"';
}
const RES = new Set(['a', 'b', 'n', 's', 'o', 'w', 'r', 'x', 'rd', 'ref', 'num2str', 'Obj', 'Arr', 'Str', 'Num', 'VBool', 'Null', 'Undef', 'Absent', 'NaN', 'true', 'false', 'and', 'or', 'not', 'select', 'store', 'let', 'as', 'forall', 'exists', 'par', 'assert', 'is']);
const sym = (s) => (RES.has(s) ? s + '$in' : /^[A-Za-z_!$][A-Za-z0-9_!$.]*$/.test(s) ? s : '|' + s.replace(/[|\\]/g, '_') + '|');
function atom(t) {
  switch (t.op) {
    case 'true': case 'false': return t.op;
    case 'int': return t.extra.startsWith('-') ? `(- ${t.extra.slice(1)})` : t.extra;
    case 'real': {
      let s = t.extra, neg = false;
      if (s.startsWith('-')) { neg = true; s = s.slice(1); }
      if (/e/i.test(s)) s = Number(s).toLocaleString('fullwide', { useGrouping: false, maximumFractionDigits: 20 });
      if (!s.includes('.')) s += '.0';
      return neg ? `(- ${s})` : s;
    }
    case 'str': return smtStr(t.extra);
    case 'bv': return `#x${Number(t.extra).toString(16).padStart(8, '0')}`;
    case 'const': case 'bvar': return sym(t.extra);
    case 'Absent': case 'Undef': case 'Null': case 'NaN': case 'PInf': case 'NInf': return t.op;
    case 'emptyDict': return '((as const (Array String Val)) Absent)';
    case 'emptyVMap': return '((as const (Array Val Val)) Absent)';
    case 'emptyVSet': return '((as const (Array Val Bool)) false)';
    case 'emptySeq': return '(as seq.empty (Seq Val))';
  }
  return null;
}
function head(t) {
  switch (t.op) {
    case 'is': return `(_ is ${t.extra})`;
    case 'un': return UNPACK[t.extra];
    case 'uf': return sym(t.extra);
    case 'int2bv': return '(_ int2bv 32)';
    case 'rotl': return `(_ rotate_left ${t.extra})`;
    default: return t.op;
  }
}
// bound variables that occur free
const freeMemo = new WeakMap();
export function freeBvars(t) {
  const c = freeMemo.get(t);
  if (c) return c;
  let r = new Set();
  if (t.op === 'bvar') r.add(t);
  else {
    for (const a of t.args) for (const x of freeBvars(a)) r.add(x);
    if (t.op === 'forall' || t.op === 'exists') for (const v of t.args.slice(1, 1 + +t.extra.split(':')[0])) r.delete(v);
  }
  if (!r.size) r = NONE;
  freeMemo.set(t, r);
  return r;
}
const NONE = new Set();
const hasBvarMemo = new WeakMap();
export function hasBvar(t) {
  const c = hasBvarMemo.get(t);
  if (c !== undefined) return c;
  const r = t.op === 'bvar' || t.args.some(hasBvar);
  hasBvarMemo.set(t, r);
  return r;
}
// Abstract mode: strings and bit vectors are integers, sequences an uninterpreted sort, their operations uninterpreted
// (with a few ground facts). Every concrete model is a model of the abstraction, so 'unsat' carries over; 'sat' does not.
const ABS_SORT = { Bool: 'Bool', Int: 'Int', Real: 'Real', String: 'Int', Val: 'Val', Seq: 'SQ', Dict: '(Array Int Val)', VMap: '(Array Val Val)', VSet: '(Array Val Bool)', BV32: 'Int' };
const CORE_OPS = new Set(['+', '-', '*', '/', '=', '=>', 'and', 'or', 'not', 'ite', 'is', 'un', 'rd', 'select', 'store', 'merge', 'mod', 'div', 'to_int', 'to_real', '<', '<=', 'distinct', 'VBool', 'Num', 'Str', 'Arr', 'Obj', 'Ref', 'Fn', 'I32', 'uf', 'forall', 'exists', 'const', 'bvar', 'true', 'false', 'int', 'real', 'str', 'bv', 'Absent', 'Undef', 'Null', 'NaN', 'PInf', 'NInf', 'emptyDict', 'emptyVMap', 'emptyVSet', 'emptySeq', 'xor', '>', '>=', 'is_int']);
const strCodes = new Map();
const strCode = (x) => { if (!strCodes.has(x)) strCodes.set(x, strCodes.size); return String(strCodes.get(x)); };
strCode('');
// prints assertions; shared closed subterms become define-funs. A Printer can be reused: declarations are emitted once.
export class Printer {
  constructor(abs = false) { this.decl = new Set(); this.names = new Map(); this.abs = abs; this.S = abs ? ABS_SORT : SORT; }
  // -> lines of declarations followed by the text of each assertion
  print(asserts) {
    const consts = new Map(), ufs = new Map(), count = new Map(), order = [], absOps = new Map();
    const visit = (t) => {
      if (this.names.has(t.id)) return;
      const n = (count.get(t.id) || 0) + 1;
      count.set(t.id, n);
      if (n > 1) return;
      for (const a of t.args) visit(a);
      if (t.op === 'const') consts.set(t.extra, t);
      if (t.op === 'uf') ufs.set(t.extra, t);
      if (this.abs && !CORE_OPS.has(t.op)) absOps.set(this.absName(t), t);
      order.push(t);
    };
    for (const a of asserts) visit(a);
    const lines = [];
    for (const c of consts.values()) if (!this.decl.has(c.extra)) { this.decl.add(c.extra); lines.push(`(declare-const ${sym(c.extra)} ${this.S[c.sort]})`); }
    for (const u of ufs.values()) if (!this.decl.has('f:' + u.extra)) { this.decl.add('f:' + u.extra); lines.push(`(declare-fun ${sym(u.extra)} (${u.args.map((a) => this.S[a.sort]).join(' ')}) ${this.S[u.sort]})`); }
    for (const [n, u] of absOps) if (!this.decl.has('a:' + n)) { this.decl.add('a:' + n); lines.push(`(declare-fun ${n} (${u.args.map((a) => this.S[a.sort]).join(' ')}) ${this.S[u.sort]})`); }
    for (const t of order) {
      if (count.get(t.id) > 1 && t.args.length > 0 && !hasBvar(t) && t.op !== 'forall' && t.op !== 'exists') {
        lines.push(`(define-fun _t${t.id} () ${this.S[t.sort]} ${this.raw(t)})`);
        this.names.set(t.id, `_t${t.id}`);
      }
    }
    return [lines, asserts.map((a) => this.pr(a))];
  }
  absName(t) { return sym(`A_${t.op}${t.extra !== undefined && t.extra !== null ? '_' + t.extra : ''}_${t.args.map((a) => a.sort).join('_')}`); }
  // ground facts about the uninterpreted operations occurring in an assertion
  facts(a) {
    const out = [], seen = new Set();
    const visit = (t) => {
      if (seen.has(t.id)) return;
      seen.add(t.id);
      t.args.forEach(visit);
      if (hasBvar(t)) return;
      if (t.op === 'str.len') out.push(`(and (>= ${this.pr(t)} 0) (= (= ${this.pr(t)} 0) (= ${this.pr(t.args[0])} 0)))`);
      else if (t.op === 'bv2nat') out.push(`(and (>= ${this.pr(t)} 0) (< ${this.pr(t)} 4294967296))`);
      else if (t.op === 'seq.len') {
        const x = t.args[0], p = this.pr(t);
        out.push(`(and (>= ${p} 0) (= (= ${p} 0) (= ${this.pr(x)} A_emptySeq)))`);
        if (x.op === 'seq.unit') out.push(`(= ${p} 1)`);
      }
    };
    visit(a);
    return out;
  }
  atom(t) {
    if (this.abs) {
      switch (t.op) {
        case 'str': return strCode(t.extra);
        case 'bv': return t.extra;
        case 'emptyDict': return '((as const (Array Int Val)) Absent)';
        case 'emptySeq': return 'A_emptySeq';
      }
    }
    return atom(t);
  }
  pr(t) { return this.names.get(t.id) ?? this.raw(t); }
  // subterms shared within a quantifier body are bound by let
  letBody(body) {
    const cnt = new Map(), ord = [];
    const walk = (x) => {
      if (this.names.has(x.id) || !hasBvar(x) || x.args.length === 0) return;
      const c = (cnt.get(x.id) || 0) + 1;
      cnt.set(x.id, c);
      if (c > 1) return;
      if (x.op !== 'forall' && x.op !== 'exists') for (const y of x.args) walk(y);
      ord.push(x);
    };
    walk(body);
    const mine = [], lets = [];
    for (const x of ord) if (cnt.get(x.id) > 1 && x !== body) { const raw = this.raw(x); lets.push(`(let ((_l${x.id} ${raw})) `); this.names.set(x.id, `_l${x.id}`); mine.push(x.id); }
    const b = this.pr(body);
    for (const id of mine) this.names.delete(id);
    return lets.join('') + b + ')'.repeat(lets.length);
  }
  raw(t) {
    const a = this.atom(t);
    if (a !== null) return a;
    if (t.op === 'forall' || t.op === 'exists') {
      const nv = +t.extra.split(':')[0];
      const vars = t.args.slice(1, 1 + nv), pats = t.args.slice(1 + nv);
      const body = this.letBody(t.args[0]);
      const b = pats.length ? `(! ${body} ${pats.map((p) => `:pattern (${this.pr(p)})`).join(' ')})` : body;
      return `(${t.op} (${vars.map((v) => `(${sym(v.extra)} ${this.S[v.sort]})`).join(' ')}) ${b})`;
    }
    if (t.args.length === 0 && t.op === 'uf') return sym(t.extra);
    if (t.op === 'inre' && !this.abs) return `(str.in_re ${this.pr(t.args[0])} ${LANGS[+t.extra]})`;
    return `(${this.abs && !CORE_OPS.has(t.op) ? this.absName(t) : head(t)} ${t.args.map((x) => this.pr(x)).join(' ')})`;
  }
}
export function printAbstract(asserts) {
  const p = new Printer(true), [lines, as] = p.print(asserts);
  const facts = [...new Set(asserts.flatMap((a) => p.facts(a)))];
  return ABS_PRELUDE + lines.join('\n') + '\n' + facts.concat(as).map((a) => `(assert ${a})`).join('\n') + '\n';
}
export function printQuery(asserts, prelude = '') {
  const [lines, as] = new Printer().print(asserts);
  return prelude + lines.join('\n') + '\n' + as.map((a) => `(assert ${a})`).join('\n') + '\n';
}
export const PRELUDE = `(declare-datatypes ((Val 0)) (((Absent) (Undef) (Null) (NaN) (PInf) (NInf) (VBool (b Bool)) (Num (n Real)) (Str (s String)) (Arr (a (Seq Val))) (Obj (o (Array String Val))) (Ref (r Int)) (Fn (f Int)) (I32 (w (_ BitVec 32))))))
(define-fun rd ((v Val)) Val (ite ((_ is Absent) v) Undef v))
(define-fun merge ((x (Array String Val)) (y (Array String Val))) (Array String Val) (lambda ((k String)) (ite ((_ is Absent) (select y k)) (select x k) (select y k))))
`;
export const ABS_PRELUDE = `(declare-sort SQ 0)
(declare-datatypes ((Val 0)) (((Absent) (Undef) (Null) (NaN) (PInf) (NInf) (VBool (b Bool)) (Num (n Real)) (Str (s Int)) (Arr (a SQ)) (Obj (o (Array Int Val))) (Ref (r Int)) (Fn (f Int)) (I32 (w Int)))))
(declare-const A_emptySeq SQ)
(define-fun rd ((v Val)) Val (ite ((_ is Absent) v) Undef v))
(define-fun merge ((x (Array Int Val)) (y (Array Int Val))) (Array Int Val) (lambda ((k Int)) (ite ((_ is Absent) (select y k)) (select x k) (select y k))))
`;

// syntactic simplification under the conditions that guard each position
export function underContext(t, pos = new Set(), neg = new Set()) {
  let budget = 20000;
  const addTo = (pos, neg, c) => { // new contexts in which c holds
    const p = new Set(pos), n = new Set(neg);
    const go = (x) => { if (x.op === 'and') x.args.forEach(go); else if (x.op === 'not') { n.add(x.args[0].id); if (x.args[0].op === 'or') x.args[0].args.forEach((y) => go(not(y))); } p.add(x.id); };
    go(c);
    return [p, n];
  };
  const walk = (t, pos, neg) => {
    if (!t.args.length || --budget < 0) return t;
    if (t.sort === 'Bool') { if (pos.has(t.id)) return TRUE(); if (neg.has(t.id)) return FALSE(); }
    switch (t.op) {
      case 'and': {
        let p = pos, n = neg; const out = [];
        for (const a of t.args) { const r = walk(a, p, n); out.push(r); [p, n] = addTo(p, n, a); if (r !== a) [p, n] = addTo(p, n, r); }
        return and(out);
      }
      case 'or': {
        let p = pos, n = neg; const out = [];
        for (const a of t.args) { const r = walk(a, p, n); out.push(r); [p, n] = addTo(p, n, not(a)); if (r !== a) [p, n] = addTo(p, n, not(r)); }
        return or(out);
      }
      case '=>': { const a = walk(t.args[0], pos, neg); let [p, n] = addTo(pos, neg, t.args[0]); [p, n] = addTo(p, n, a); return implies(a, walk(t.args[1], p, n)); }
      case 'ite': {
        const c = walk(t.args[0], pos, neg);
        if (isT(c)) return walk(t.args[1], pos, neg);
        if (isF(c)) return walk(t.args[2], pos, neg);
        let [p, n] = addTo(pos, neg, t.args[0]); [p, n] = addTo(p, n, c);
        let [p2, n2] = addTo(pos, neg, not(t.args[0])); [p2, n2] = addTo(p2, n2, not(c));
        return ite(c, walk(t.args[1], p, n), walk(t.args[2], p2, n2));
      }
      default: {
        const args = t.args.map((a) => walk(a, pos, neg));
        return args.every((a, i) => a === t.args[i]) ? t : rebuild(t, args);
      }
    }
  };
  return walk(t, pos, neg);
}
