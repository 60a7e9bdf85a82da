// Contracts on packages/experiment-core/src/evaluation.
const EV = 'packages/experiment-core/src/evaluation/evaluation.ts';
const SEL = 'packages/experiment-core/src/evaluation/select.ts';
const SV = 'packages/experiment-core/src/evaluation/semantic-version.ts';
const MUR = 'packages/experiment-core/src/evaluation/murmur3.ts';
const UT = 'packages/experiment-core/src/evaluation/utils.ts';
const valueClasses = [SV + '#SemanticVersion'];
const ENGINE = 'EvaluationEngine';

// ---------------------------------------------------------------- specification functions
export function specSelect(from, path) {
  if (!path || path.length === 0) return undefined;
  let v = from;
  for (const step of path) {
    if (!step || !v || typeof v !== 'object') return undefined;
    v = v[step];
  }
  return v === null ? undefined : v;
}
// the string a selected (non-null) value stands for
export function specString(v) {
  if (v === undefined || v === null) return undefined;
  return typeof v === 'object' ? JSON.stringify(v) : String(v);
}
// MurmurHash3 (x86, 32 bit), from the reference description
export function rotl(x, n) { return (x << n) | (x >>> (32 - n)); }
export function specBlock(k) { return Math.imul(rotl(Math.imul(k, 0xcc9e2d51), 15), 0x1b873593); }
export function specMix(k, h) { return Math.imul(rotl(h ^ specBlock(k), 13), 5) + 0xe6546b64; }
export function specFinal(h) {
  const a = Math.imul(h ^ (h >>> 16), 0x85ebca6b);
  const b = Math.imul(a ^ (a >>> 13), 0xc2b2ae35);
  return b ^ (b >>> 16);
}
// UTF-8 of the text from position i on; an unpaired surrogate takes three bytes
export function utf8From(text, i) { return as(uninterp('fn_utf8', 'Seq', text, i), 'number[]'); }
export function utf8Step(text, i) {
  if (i >= text.length) return [];
  const c = text.charCodeAt(i);
  if (c < 0x80) return [c, ...utf8From(text, i + 1)];
  if (c < 0x800) return [0xc0 | (c >>> 6), 0x80 | (c & 0x3f), ...utf8From(text, i + 1)];
  if (c >= 0xd800 && c <= 0xdbff && i + 1 < text.length) {
    const d = text.charCodeAt(i + 1);
    if (d >= 0xdc00 && d <= 0xdfff) {
      const p = 0x10000 + ((c & 0x3ff) << 10) + (d & 0x3ff);
      return [0xf0 | (p >>> 18), 0x80 | ((p >>> 12) & 0x3f), 0x80 | ((p >>> 6) & 0x3f), 0x80 | (p & 0x3f), ...utf8From(text, i + 2)];
    }
  }
  return [0xe0 | (c >>> 12), 0x80 | ((c >>> 6) & 0x3f), 0x80 | (c & 0x3f), ...utf8From(text, i + 1)];
}
export function specMurmur(input, seed) {
  const data = as(uninterp('fn_stringToUtf8ByteArray', 'Seq', input), 'number[]');
  const n = data.length;
  const blocks = n >> 2;
  let h = seed;
  for (let i = 0; i < blocks; i++) h = uninterp('fn_mix32', 'BV32', uninterp('fn_readIntLe', 'BV32', data, i * 4), h);
  const rest = n - blocks * 4;
  let k = 0;
  if (rest >= 3) k ^= data[blocks * 4 + 2] << 16;
  if (rest >= 2) k ^= data[blocks * 4 + 1] << 8;
  if (rest >= 1) { k ^= data[blocks * 4]; h ^= specBlock(k); }
  return uninterp('fn_fmix32', 'BV32', h ^ n);
}
export function hashOf(key) { return uninterp('fn_hash32x86', 'Int', key); }
export function specBucketWith(segment, value) {
  if (!segment.bucket || !value) return segment.variant;
  const h = hashOf(segment.bucket.salt + '/' + value);
  for (const a of segment.bucket.allocations) {
    if (h % 100 >= a.range[0] && h % 100 < a.range[1]) {
      for (const d of a.distributions) {
        if (Math.floor(h / 100) >= d.range[0] && Math.floor(h / 100) < d.range[1]) return d.variant;
      }
    }
  }
  return segment.variant;
}
export function specBucket(target, segment) {
  return specBucketWith(segment, segment.bucket ? specString(uninterp('fn_select', 'Val', target, segment.bucket.selector)) : undefined);
}


export const OPS = { string: ['is', 'is not', 'contains', 'does not contain', 'less', 'less or equal', 'greater', 'greater or equal', 'version less', 'version less or equal', 'version greater', 'version greater or equal', 'regex match', 'regex does not match'],
  set: ['set is', 'set is not', 'set contains', 'set does not contain', 'set contains any', 'set does not contain any'] };
export function isKnownOp(op) { return isSetOp(op) || op === 'is' || op === 'is not' || op === 'contains' || op === 'does not contain' || op === 'less' || op === 'less or equal' || op === 'greater' || op === 'greater or equal' || op === 'version less' || op === 'version less or equal' || op === 'version greater' || op === 'version greater or equal' || op === 'regex match' || op === 'regex does not match'; }

// ---- matching
export function isNegative(op) { return op === 'is not' || op === 'does not contain' || op === 'set does not contain' || op === 'set does not contain any'; }
export function absentMatches(op, values) {
  if (op === 'regex match' || op === 'regex does not match' || op === 'set is not') return false;
  const none = values.some((f) => f === '(none)');
  return isNegative(op) ? !none : none;
}
export function isBoolText(t) { return t.toLowerCase() === 'true' || t.toLowerCase() === 'false'; }
export function specIs(value, values) {
  return values.some((f) => f === value || (isBoolText(f) && isBoolText(value) && f.toLowerCase() === value.toLowerCase()));
}
export function specContains(value, values) { return values.some((f) => value.toLowerCase().includes(f.toLowerCase())); }
export function specRegex(value, values) { return values.some((f) => !!new RegExp(f).exec(value)); }
export function specNumber(op, value, values) {
  if (op === 'less') return values.some((f) => Number(value) < Number(f));
  if (op === 'less or equal') return values.some((f) => Number(value) <= Number(f));
  if (op === 'greater') return values.some((f) => Number(value) > Number(f));
  return values.some((f) => Number(value) >= Number(f));
}
export function parsed(text) { return uninterp('fn_SemanticVersion_parse', 'Val', text); }
export function order(a, b) { return uninterp('fn_SemanticVersion_compareTo', 'Int', a, b); }
export function parses(text) { return parsed(text) !== undefined; }
export function specVersion(op, value, values) {
  if (op === 'version less') return values.some((f) => parses(f) && order(parsed(value), parsed(f)) < 0);
  if (op === 'version less or equal') return values.some((f) => parses(f) && order(parsed(value), parsed(f)) <= 0);
  if (op === 'version greater') return values.some((f) => parses(f) && order(parsed(value), parsed(f)) > 0);
  return values.some((f) => parses(f) && order(parsed(value), parsed(f)) >= 0);
}
// the list a property value stands for, if any
export function listOf(v) {
  if (Array.isArray(v)) return as(v.map((e) => specString(e)).filter((e) => !!e), 'string[]');
  const text = String(v);
  if (!text.startsWith('[')) return undefined;
  let p;
  try { p = JSON.parse(text); } catch (e) { return undefined; }
  return Array.isArray(p) ? as(p.map((e) => specString(e)).filter((e) => !!e), 'string[]') : undefined;
}
export function setContainsAll(list, values) { return list.length >= values.length && values.every((f) => specIs(f, list)); }
export function setContainsAny(list, values) { return values.some((f) => specIs(f, list)); }
export function sameStrings(list, values) { return list.every((e) => values.includes(e)) && values.every((f) => list.includes(f)); }
export function setMatches(op, list, values) {
  if (op === 'set is') return sameStrings(list, values);
  if (op === 'set is not') return !sameStrings(list, values);
  if (op === 'set contains') return setContainsAll(list, values);
  if (op === 'set does not contain') return !setContainsAll(list, values);
  if (op === 'set contains any') return setContainsAny(list, values);
  return !setContainsAny(list, values);
}
export function propOf(target, selector) { return uninterp('fn_select', 'Val', target, selector); }
export function isSetOp(op) { return op === 'set is' || op === 'set is not' || op === 'set contains' || op === 'set does not contain' || op === 'set contains any' || op === 'set does not contain any'; }
export function isVersionOp(op) { return op.startsWith('version '); }
export function scalarMatches(op, value, values) {
  if (op === 'is') return specIs(value, values);
  if (op === 'is not') return !specIs(value, values);
  if (op === 'contains') return specContains(value, values);
  if (op === 'does not contain') return !specContains(value, values);
  if (op === 'regex match') return specRegex(value, values);
  if (op === 'regex does not match') return !specRegex(value, values);
  if (op === 'less' || op === 'less or equal' || op === 'greater' || op === 'greater or equal') return specNumber(op, value, values);
  return specVersion(op, value, values);
}

export function specOrder(a, b) {
  if (a.major !== b.major) return a.major > b.major ? 1 : -1;
  if (a.minor !== b.minor) return a.minor > b.minor ? 1 : -1;
  if (a.patch !== b.patch) return a.patch > b.patch ? 1 : -1;
  if (!a.preRelease && !b.preRelease) return 0;
  if (!b.preRelease) return -1;
  if (!a.preRelease) return 1;
  if (a.preRelease === b.preRelease) return 0;
  return a.preRelease > b.preRelease ? 1 : -1;
}
export function sameVersion(a, b) { return a.major === b.major && a.minor === b.minor && a.patch === b.patch && (a.preRelease === b.preRelease || (!a.preRelease && !b.preRelease)); }
export function specPasses(target, segment) { return !segment.conditions || uninterp('fn_condition_groups', 'Bool', target, segment.conditions); }
export function specFlag(target, flag) {
  for (const segment of flag.segments) {
    const v = as(uninterp('fn_segment_variant', 'Val', target, flag, segment), 'EvaluationVariant | undefined');
    if (v !== undefined) return mergedVariant(flag, segment, v);
  }
  return undefined;
}
export function specGroups(target, groups) { return groups.some((g) => g.every((c) => uninterp('fn_matchCondition', 'Bool', target, c))); }
// the variant a segment of the flag yields, before its metadata is merged
export function specSegment(target, flag, segment) {
  if (!specPasses(target, segment)) return undefined;
  const key = uninterp('fn_bucket', 'Val', target, segment);
  return key !== undefined ? flag.variants[as(key, 'string')] : undefined;
}
export function winnerOf(target, flag, k) { return uninterp('fn_segment_variant', 'Val', target, flag, flag.segments[k]); }
export function noneBefore(target, flag, n) { return forallInt((k) => implies(k >= 0 && k < n, () => winnerOf(target, flag, k) === undefined)); }
export function mergedVariant(flag, segment, v) { return { ...v, metadata: { ...flag.metadata, ...segment.metadata, ...v.metadata } }; }
export function specEvaluate(context, flags) {
  const results = {};
  for (const flag of flags) {
    const v = as(uninterp('fn_first_segment_wins', 'Val', { context, result: results }, flag), 'EvaluationVariant | undefined');
    if (v !== undefined) results[flag.key] = v;
  }
  return results;
}
export function specEvaluateTraced(context, flags) {
  const results = {};
  for (const flag of flags) {
    const v = as(uninterp('fn_traced_flag', 'Val', { context, result: results }, flag), '{ variant: EvaluationVariant | undefined; trace: FlagEvaluationTrace }').variant;
    if (v !== undefined) results[flag.key] = v;
  }
  return results;
}
export const contracts = [
  { name: 'select', target: SEL + '#select', props: ['E04'], opaque: true, arity: 2,
    ensures: ({ args, result }) => ({ 'reads the path, undefined when any step is missing, null or not an object': same(result, specSelect(args.selectable, args.selector)) }) },
  { name: 'mix32', target: MUR + '#mix32', props: ['E01'], opaque: 'BV32', words: ['k', 'hash'],
    ensures: ({ args, result }) => ({ 'the body step of MurmurHash3': u32(result) === u32(specMix(args.k, args.hash)) }) },
  { name: 'fmix32', target: MUR + '#fmix32', props: ['E01'], opaque: 'BV32', words: ['hash'],
    ensures: ({ args, result }) => ({ 'the finalizer of MurmurHash3': u32(result) === u32(specFinal(args.hash)) }) },
  { name: 'rotateLeft', target: MUR + '#rotateLeft', props: ['E01'], words: ['x'], given: { x: 'number' },
    act: ({ args }) => ({ a: rotateLeft(args.x, 15), b: rotateLeft(args.x, 13) }), actIn: MUR,
    ensures: ({ args, result }) => ({ 'rotates by 15': u32(result.a) === u32(rotl(args.x, 15)), 'rotates by 13': u32(result.b) === u32(rotl(args.x, 13)) }) },
  { name: 'reverseBytes', target: MUR + '#reverseBytes', props: ['E01'], words: ['n'],
    ensures: ({ args, result }) => ({ 'the bytes in the opposite order': u32(result) === u32((args.n >>> 24) | ((args.n >>> 8) & 0xff00) | ((args.n << 8) & 0xff0000) | (args.n << 24)) }) },
  { name: 'readIntLe', target: MUR + '#readIntLe', props: ['E01'], opaque: 'BV32', words: ['a', 'b', 'c', 'd', 'e'], given: { a: 'number', b: 'number', c: 'number', d: 'number', e: 'number' },
    requires: ({ args }) => ({ bytes: (args.a >>> 8) === 0 && (args.b >>> 8) === 0 && (args.c >>> 8) === 0 && (args.d >>> 8) === 0 && (args.e >>> 8) === 0 }),
    act: ({ args }) => ({ first: readIntLe([args.a, args.b, args.c, args.d], 0), later: readIntLe([args.a, args.b, args.c, args.d, args.e], 1) }), actIn: MUR,
    ensures: ({ args, result }) => ({ 'four bytes, least significant first': u32(result.first) === u32(args.a | (args.b << 8) | (args.c << 16) | (args.d << 24)), 'from the given position': u32(result.later) === u32(args.b | (args.c << 8) | (args.d << 16) | (args.e << 24)) }) },
  { name: 'utf8', target: UT + '#stringToUtf8ByteArray', params: ['text', 'i'], opaque: 'Seq', resultType: 'number[]', abstraction: true, why: 'the definition of UTF-8, unfolded one character at a time; not a function of the code',
    ensures: ({ args, result }) => ({ 'one character': same(result, utf8Step(args.text, args.i)) }) },
  { name: 'utf-8 encoding', target: UT + '#stringToUtf8ByteArray', props: ['E01'], uses: ['utf8'], keepArrays: true,
    loops: [{
      lemmas: [{ use: 'utf8', args: ({ args, vars }) => ({ text: args.str, i: vars.i }) }],
      inv: ({ args, vars }) => ({
        'the position is in the text': vars.i >= 0 && vars.i <= args.str.length,
        'the write position is the length': vars.p === vars.out.length,
        'what is written is the encoding of what is read': same([...vars.out, ...utf8From(args.str, vars.i)], utf8From(args.str, 0)),
      }),
    }],
    lemmas: [{ use: 'utf8', args: ({ args }) => ({ text: args.str, i: args.str.length }) }],
    ensures: ({ args, result }) => ({ 'the UTF-8 encoding': same(result, utf8From(args.str, 0)) }) },
  { name: 'stringToUtf8ByteArray', target: 'packages/experiment-core/src/evaluation/utils.ts#stringToUtf8ByteArray', opaque: 'Seq', resultType: 'number[]', abstraction: true },
  { name: 'murmur', target: MUR + '#hash32x86', props: ['E01'], words: ['seed'], uses: ['stringToUtf8ByteArray', 'mix32', 'fmix32', 'readIntLe'], keepArrays: true,
    ensures: ({ args, result }) => ({ 'body over the blocks, tail over the rest, then the finalizer': u32(result) === u32(specMurmur(args.input, args.seed)) }) },
  { name: 'hash32x86', target: MUR + '#hash32x86', opaque: 'Int', range: [0, 4294967295], arity: 1, abstraction: true },
  { name: 'SemanticVersion.parse', target: SV + '#SemanticVersion.parse', opaque: true, valueClasses, abstraction: true },
  { name: 'SemanticVersion.compareTo', target: SV + '#SemanticVersion.compareTo', opaque: 'Int', selfArg: true, valueClasses, abstraction: true },

  // ---------------------------------------------------------------- E05, E06, E07: one contract per operator
  ...[...OPS.string, ...OPS.set].map((op) => ({
    name: 'absent value: ' + op, target: EV + '#EvaluationEngine.evaluateConditions', props: ['E05'], uses: ['select'],
    given: { target: 'EvaluationTarget', selector: 'string[]', values: 'string[]', op: `'${op}'` },
    requires: ({ args }) => ({ 'the property is absent': propOf(args.target, args.selector) === undefined }),
    act: ({ self, args }) => self.evaluateConditions(args.target, [[{ selector: args.selector, op: args.op, values: args.values }]]),
    ensures: ({ args, result }) => ({ 'matches as stated for an absent value': iff(result, absentMatches(args.op, args.values)) }),
  })),
  ...OPS.string.map((op) => ({
    name: 'present value: ' + op, target: EV + '#EvaluationEngine.evaluateConditions', props: [/less|greater/.test(op) ? 'E07' : 'E05'], uses: ['select', 'SemanticVersion.parse', 'SemanticVersion.compareTo'], valueClasses,
    given: { target: 'EvaluationTarget', selector: 'string[]', values: 'string[]', op: `'${op}'` },
    requires: ({ args }) => ({
      'the property is present': propOf(args.target, args.selector) !== undefined && propOf(args.target, args.selector) !== null,
      'it is not a list': listOf(propOf(args.target, args.selector)) === undefined,
      'it parses': !isVersionOp(args.op) || (parses(specString(propOf(args.target, args.selector))) && args.values.some((f) => parses(f))),
    }),
    act: ({ self, args }) => self.evaluateConditions(args.target, [[{ selector: args.selector, op: args.op, values: args.values }]]),
    overSource: /version|less|greater/.test(op), throws: /regex/.test(op), // an invalid pattern
    ensures: ({ args, result, thrown }) => ({ 'matches as stated': implies(!thrown, () => iff(result, scalarMatches(args.op, specString(propOf(args.target, args.selector)), args.values))) }),
  })),
  ...OPS.set.flatMap((op) => [
    ['array', ({ args }) => ({ 'the property is an array': Array.isArray(propOf(args.target, args.selector)) })],
    ['text', ({ args }) => ({ 'the property is a string': typeof propOf(args.target, args.selector) === 'string' })],
    ['other', ({ args }) => ({ 'the property is a boolean, number or object': typeof propOf(args.target, args.selector) === 'boolean' || typeof propOf(args.target, args.selector) === 'number' || isObj(propOf(args.target, args.selector)) })],
  ].map(([kind, requires]) => ({
    name: `list (${kind}): ${op}`, target: EV + '#EvaluationEngine.evaluateConditions', props: ['E06'], uses: ['select'], requires,
    given: { target: 'EvaluationTarget', selector: 'string[]', values: 'string[]', op: `'${op}'` },
    act: ({ self, args }) => self.evaluateConditions(args.target, [[{ selector: args.selector, op: args.op, values: args.values }]]),
    ensures: ({ args, result }) => {
      const list = listOf(propOf(args.target, args.selector));
      return {
        'never matches a value that is not a list': implies(list === undefined, () => !result),
        'matches as stated': implies(list !== undefined, () => iff(result, setMatches(args.op, list, args.values))),
      };
    },
  }))),
  // a non-set operator on a list
  { name: 'matchString', target: EV + '#EvaluationEngine.matchString', opaque: 'Bool', arity: 3, abstraction: true, why: 'what it decides per operator is proved by the contracts string operator: *' },
  ...OPS.string.filter((op) => /less|greater/.test(op)).map((op) => ({
    name: 'string operator: ' + op, target: EV + '#EvaluationEngine.matchString', props: ['E06', 'E07'], uses: ['SemanticVersion.parse', 'SemanticVersion.compareTo'], valueClasses, overSource: true,
    given: { propValue: 'string', values: 'string[]', op: `'${op}'` },
    requires: ({ args }) => ({ 'it parses': !isVersionOp(args.op) || (parses(args.propValue) && args.values.some((f) => parses(f))) }),
    act: ({ self, args }) => self.matchString(args.propValue, args.op, args.values),
    ensures: ({ args, result }) => ({ 'matches as stated': iff(result, scalarMatches(args.op, args.propValue, args.values)) }),
  })),
  ...OPS.string.filter((op) => /less|greater/.test(op)).flatMap((op) => [
    ['array', ({ args }) => ({ 'the property is an array': Array.isArray(propOf(args.target, args.selector)) })],
    ['text', ({ args }) => ({ 'the property is a string holding a list': typeof propOf(args.target, args.selector) === 'string' && listOf(propOf(args.target, args.selector)) !== undefined })],
  ].map(([kind, requires]) => ({
    name: `elements (${kind}): ${op}`, target: EV + '#EvaluationEngine.evaluateConditions', props: ['E06'], uses: ['select', 'matchString'], requires,
    given: { target: 'EvaluationTarget', selector: 'string[]', values: 'string[]', op: `'${op}'` },
    act: ({ self, args }) => self.evaluateConditions(args.target, [[{ selector: args.selector, op: args.op, values: args.values }]]),
    ensures: ({ args, result }) => ({ 'matches exactly when it matches some element': iff(result, listOf(propOf(args.target, args.selector)).some((e) => uninterp('fn_matchString', 'Bool', e, args.op, args.values))) }),
  }))),
  ...OPS.string.filter((op) => !/less|greater/.test(op)).flatMap((op) => [
    ['array', ({ args }) => ({ 'the property is an array': Array.isArray(propOf(args.target, args.selector)) })],
    ['text', ({ args }) => ({ 'the property is a string holding a list': typeof propOf(args.target, args.selector) === 'string' && listOf(propOf(args.target, args.selector)) !== undefined })],
  ].map(([kind, requires]) => ({
    name: `elements (${kind}): ${op}`, target: EV + '#EvaluationEngine.evaluateConditions', props: ['E06'], uses: ['select'], requires, overSource: 'maps',
    given: { target: 'EvaluationTarget', selector: 'string[]', values: 'string[]', op: `'${op}'` }, throws: /regex/.test(op),
    act: ({ self, args }) => self.evaluateConditions(args.target, [[{ selector: args.selector, op: args.op, values: args.values }]]),
    ensures: ({ args, result, thrown }) => {
      const list = listOf(propOf(args.target, args.selector));
      return { 'matches exactly when it matches some element': implies(!thrown, () => iff(result, list.some((e) => scalarMatches(args.op, e, args.values)))) };
    },
  }))),
  {
    name: 'unknown operator', target: EV + '#EvaluationEngine.evaluateConditions', props: ['E05'], uses: ['select', 'SemanticVersion.parse', 'SemanticVersion.compareTo'], valueClasses,
    given: { target: 'EvaluationTarget', selector: 'string[]', values: 'string[]', op: 'string' },
    requires: ({ args }) => ({ 'unknown operator': !isKnownOp(args.op) }),
    act: ({ self, args }) => self.evaluateConditions(args.target, [[{ selector: args.selector, op: args.op, values: args.values }]]),
    ensures: ({ result }) => ({ 'never matches': result === false }),
  },

  // ---------------------------------------------------------------- E07: versions are totally ordered
  {
    name: 'version comparison', target: SV + '#SemanticVersion.compareTo', props: ['E07'], valueClasses, inputs: 'plain',
    ensures: ({ self, args, result }) => ({ 'lexicographic on major, minor, patch; a pre-release is below its release; pre-releases by string order': same(result, specOrder(self, args.other)) }),
  },
  {
    name: 'version order is total', target: SV + '#SemanticVersion.compareTo', props: ['E07'],
    given: { a: 'SemanticVersion', b: 'SemanticVersion', c: 'SemanticVersion' },
    act: ({ args }) => ({ ab: args.a.compareTo(args.b), ba: args.b.compareTo(args.a), bc: args.b.compareTo(args.c), ac: args.a.compareTo(args.c), aa: args.a.compareTo(args.a) }),
    ensures: ({ args, result }) => ({
      'antisymmetric': result.ab === 0 - result.ba,
      'transitive': implies(result.ab <= 0 && result.bc <= 0, () => result.ac <= 0),
      'strictly transitive': implies((result.ab < 0 && result.bc <= 0) || (result.ab <= 0 && result.bc < 0), () => result.ac < 0),
      'consistent with equality': iff(result.ab === 0, sameVersion(args.a, args.b)),
      'reflexive': result.aa === 0,
    }),
  },

  // ---------------------------------------------------------------- E04
  { name: 'matchCondition', target: EV + '#EvaluationEngine.matchCondition', opaque: 'Bool', abstraction: true },
  {
    name: 'condition groups', target: EV + '#EvaluationEngine.evaluateConditions', props: ['E04'], opaque: 'Bool', uses: ['matchCondition'],
    ensures: ({ args, result }) => ({ 'some group has every condition matching': iff(result, args.conditions.some((g) => g.every((c) => uninterp('fn_matchCondition', 'Bool', args.target, c)))) }),
  },
  // ---------------------------------------------------------------- E02
  {
    name: 'bucketing', noMerge: true, specPrune: true, target: EV + '#EvaluationEngine.evaluate', props: ['E02'], uses: ['select', 'hash32x86'],
    given: { context: 'Record<string, unknown>', segment: 'EvaluationSegment', variants: 'Record<string, EvaluationVariant>' },
    requires: ({ args }) => ({ 'the segment has no conditions': args.segment.conditions === undefined }),
    act: ({ self, args }) => self.evaluate(args.context, [{ key: 'f', segments: [args.segment], variants: args.variants }]),
    ensures: ({ args, result }) => {
      const key = specBucket({ context: args.context, result: {} }, args.segment);
      const v = key === undefined ? undefined : args.variants[key];
      return {
        'a variant is returned exactly when the first matching distribution (or else the default) names one': iff(v, present(result, 'f')),
        'it is the first matching distribution of the allocations containing the hash, else the default': implies(v, () => same(result.f.key, v.key) && same(result.f.value, v.value) && same(result.f.payload, v.payload)),
      };
    },
  },

  // ---------------------------------------------------------------- E03
  { name: 'bucket', target: EV + '#EvaluationEngine.bucket', props: ['E02'], opaque: true, uses: ['select', 'hash32x86'],
    ensures: ({ args, result }) => ({ 'first matching distribution, else the default': same(result, specBucket(args.target, args.segment)) }) },
  { name: 'segment variant', target: EV + '#EvaluationEngine.evaluateSegment', props: ['E03', 'E09'], opaque: true, uses: ['condition groups', 'bucket'],
    ensures: ({ args, result }) => ({ 'the variant its bucket names, when its conditions pass': same(result, specSegment(args.target, args.flag, args.segment)) }) },
  {
    name: 'first segment wins', target: EV + '#EvaluationEngine.evaluateFlag', props: ['E03'], opaque: true, uses: ['condition groups', 'bucket', 'segment variant'],
    ensures: ({ args, result }) => ({ 'the variant of the first passing segment whose bucketed key names a variant, with merged metadata': same(result, specFlag(args.target, args.flag)) }),
  },
  // ---------------------------------------------------------------- E08, E09
  {
    name: 'evaluation of a list', target: EV + '#EvaluationEngine.evaluate', props: ['E08', 'E09'], uses: ['first segment wins'],
    snapshot: ({ args }) => ({ context: snap(args.context), flags: snap(args.flags) }),
    ensures: ({ args, old, result }) => ({
      'the last variant of every key whose flags produced one, each evaluated against the context and the results before it': same(result, specEvaluate(args.context, args.flags)),
      'the context is not modified': same(args.context, old.context),
      'the flags are not modified': same(args.flags, old.flags),
    }),
  },
  {
    name: 'traced flag', target: EV + '#EvaluationEngine.evaluateFlagWithTrace', props: ['E09'], opaque: true, uses: ['matchCondition', 'bucket', 'select', 'condition groups', 'segment variant'],
    loops: [{
      lemmas: [{ use: 'segment variant', args: ({ args, i }) => ({ target: args.target, flag: args.flag, segment: args.flag.segments[i] }) }, { use: 'condition groups', args: ({ args, i }) => ({ target: args.target, conditions: args.flag.segments[i].conditions }), when: ({ args, i }) => ({ conditional: args.flag.segments[i].conditions !== undefined }) }],
      over: ({ args }) => args.flag.segments,
      inv: ({ args, i, vars }) => ({
        'there is a winner exactly when an earlier segment names a variant': iff(vars.winnerVariant === undefined, noneBefore(args.target, args.flag, i)),
        'the winner is the first segment that names a variant': forallInt((k) => implies(k >= 0 && k < i && winnerOf(args.target, args.flag, k) !== undefined && noneBefore(args.target, args.flag, k), () => same(vars.winnerVariant, winnerOf(args.target, args.flag, k)) && same(vars.winnerSegment, args.flag.segments[k]))),
      }),
    }],
    ensures: ({ args, result }) => ({
      'no variant exactly when no segment names one': iff(result.variant === undefined, noneBefore(args.target, args.flag, args.flag.segments.length)),
      'the variant is that of the first segment that names one, with merged metadata': forallInt((k) => implies(k >= 0 && k < args.flag.segments.length && winnerOf(args.target, args.flag, k) !== undefined && noneBefore(args.target, args.flag, k), () => same(result.variant, mergedVariant(args.flag, args.flag.segments[k], winnerOf(args.target, args.flag, k))))),
      'the trace reports a match exactly when there is a variant': iff(result.trace.matched, result.variant !== undefined),
      'the trace names the flag': same(result.trace.flagKey, args.flag.key),
    }),
  },
  {
    name: 'a traced flag yields what an untraced one yields', target: EV + '#EvaluationEngine.evaluate', props: ['E09'], uses: ['first segment wins', 'traced flag'],
    given: { target: 'EvaluationTarget', flag: 'EvaluationFlag' },
    act: ({ self, args }) => ({ plain: self.evaluateFlag(args.target, args.flag), traced: self.evaluateFlagWithTrace(args.target, args.flag) }),
    lemmas: [
      { use: 'first segment wins', args: ({ args }) => ({ target: args.target, flag: args.flag }), type: 'EvaluationVariant | undefined' },
      { use: 'traced flag', args: ({ args }) => ({ target: args.target, flag: args.flag }), type: '{ variant: EvaluationVariant | undefined; trace: FlagEvaluationTrace }' },
    ],
    ensures: ({ result }) => ({ 'the same variant': same(result.traced.variant, result.plain) }),
  },
  {
    name: 'traced evaluation', target: EV + '#EvaluationEngine.evaluateWithTraces', props: ['E09'], uses: ['traced flag'],
    ensures: ({ args, result }) => ({
      'the same variants as without traces': same(result.results, specEvaluateTraced(args.context, args.flags)),
    }),
  },
];
