// E01-E10 executed as oracles on packages/experiment-core
import { bundle } from '../lib/bundle.mjs';
import { models, same, MissingModel } from '../lib/oracle.mjs';
import * as S from '../contracts/core.mjs';
let M = null;
async function load() {
  if (M) return M;
  M = await bundle((p, has) => `export * from ${JSON.stringify(p('experiment-core/src/index.ts'))};
${has('experiment-core/src/evaluation/murmur3.ts') ? `import * as murmur from ${JSON.stringify(p('experiment-core/src/evaluation/murmur3.ts'))}; export { murmur };` : 'export const murmur = {};'}
${has('experiment-core/src/evaluation/semantic-version.ts') ? `import * as semver from ${JSON.stringify(p('experiment-core/src/evaluation/semantic-version.ts'))}; export { semver };` : 'export const semver = {};'}`);
  return M;
}
const clone = (x) => JSON.parse(JSON.stringify(x));
// ---------------------------------------------------------------- reference model
function utf8(s) {
  const out = [];
  for (let i = 0; i < s.length; i++) {
    const c = s.codePointAt(i);
    if (c > 0xffff) i++;
    if (c < 0x80) out.push(c); else if (c < 0x800) out.push(0xc0 | (c >> 6), 0x80 | (c & 63)); else if (c < 0x10000) out.push(0xe0 | (c >> 12), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63)); else out.push(0xf0 | (c >> 18), 0x80 | ((c >> 12) & 63), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63));
  }
  return out;
}
const M32 = 0xffffffffn;
const rotl = (x, r) => ((x << BigInt(r)) | (x >> BigInt(32 - r))) & M32;
export function murmur3(str, seed = 0) { // over big integers: shares no arithmetic with the code under test
  const d = utf8(str).map(BigInt), n = d.length;
  let h = BigInt(seed >>> 0);
  const mixk = (k) => (rotl((k * 0xcc9e2d51n) & M32, 15) * 0x1b873593n) & M32;
  let i = 0;
  for (; i + 4 <= n; i += 4) { h ^= mixk(d[i] | (d[i + 1] << 8n) | (d[i + 2] << 16n) | (d[i + 3] << 24n)); h = (rotl(h, 13) * 5n + 0xe6546b64n) & M32; }
  let k = 0n;
  for (let j = n - 1; j >= i; j--) k = (k << 8n) | d[j];
  if (n > i) h ^= mixk(k);
  h ^= BigInt(n);
  h ^= h >> 16n; h = (h * 0x85ebca6bn) & M32; h ^= h >> 13n; h = (h * 0xc2b2ae35n) & M32; h ^= h >> 16n;
  return Number(h);
}
const VERSION = /^(\d+)\.(\d+)(\.(\d+)(-(([-\w]+\.?)*))?)?$/;
export function parseVersion(t) {
  const m = t ? VERSION.exec(t) : null;
  return m ? { major: Number(m[1]), minor: Number(m[2]), patch: m[4] === undefined ? 0 : Number(m[4]), preRelease: m[5] || undefined } : undefined;
}
// value of a condition: true / false, or null where the property says nothing (version operators on text that does not parse)
export function matchRef(target, c) {
  const v = S.specSelect(target, c.selector);
  if (!S.isKnownOp(c.op)) return false;
  if (v === undefined || v === null) return S.absentMatches(c.op, c.values);
  const list = S.listOf(v);
  if (S.isSetOp(c.op)) return list ? S.setMatches(c.op, list, c.values) : false;
  const scalar = (x) => { if (S.isVersionOp(c.op) && (!parseVersion(x) || !c.values.some((f) => parseVersion(f)))) return null; return S.scalarMatches(c.op, x, c.values); };
  if (!list) return scalar(S.specString(v));
  const rs = list.map(scalar);
  return rs.some((r) => r === true) && !rs.includes(null) ? true : rs.includes(null) ? null : false;
}
Object.assign(models, {
  fn_select: S.specSelect, fn_hash32x86: (k) => murmur3(k), fn_SemanticVersion_parse: parseVersion, fn_SemanticVersion_compareTo: S.specOrder,
  fn_matchCondition: (t, c) => { const r = matchRef(t, c); if (r === null) throw new Unspecified(); return r; },
  fn_condition_groups: (t, gs) => gs.some((g) => g.every((c) => models.fn_matchCondition(t, c))),
  fn_bucket: (t, seg) => S.specBucket(t, seg), fn_segment_variant: (t, f, seg) => S.specSegment(t, f, seg), fn_first_segment_wins: (t, f) => S.specFlag(t, f), fn_traced_flag: (t, f) => ({ variant: S.specFlag(t, f) }),
});
class Unspecified extends Error {}
const ref = (f) => { try { return { v: f() }; } catch (e) { if (e instanceof Unspecified) return null; if (e instanceof MissingModel) throw e; return { thrown: true }; } };

// ---------------------------------------------------------------- generators
const TEXT = ['', 'a', 'A', 'true', 'TRUE', 'false', 'False', '(none)', '0', '1', '10', '9', '2.0', '-1', '1e2', ' 5', 'abc', 'ABC', 'b', '1.2', '1.2.3', '1.10.0', '1.2.3-a', '1.2.3-b', '2.0.0', '01.2.0', '[]', '["a"]', '["A","true"]', '["1","10"]', '["1.2.3","1.3"]', '[1,null,"",{"k":1}]', '[', '{"a":1}', '["a"', 'null', 'ab', 'é', '日本', '😀', '\ud800', 'İ', 'ß', 'undefined'];
const text = (r) => (r.bool(0.85) ? r.pick(TEXT) : r.list(r.int(1, 6), () => r.pick([...'ab1.-/ é日', '😀'])).join(''));
const scalar = (r) => r.weighted([[6, text(r)], [1, true], [1, false], [1, r.int(-3, 30)], [0.5, 1.5], [0.5, null], [0.5, { k: 'v' }]]);
const value = (r) => r.weighted([[5, scalar(r)], [2, r.list(r.int(0, 4), () => scalar(r))], [0.7, JSON.stringify(r.list(r.int(0, 4), () => scalar(r)))]]);
const KEYS = ['user_id', 'plan', 'tags', 'x'];
const context = (r) => { const u = {}; for (const k of KEYS) if (r.bool(0.8)) u[k] = value(r); if (r.bool(0.3)) u.user_properties = { plan: value(r) }; return r.bool(0.95) ? { user: u } : {}; };
const selector = (r, flagKeys = []) => r.weighted([[8, ['context', 'user', r.pick(KEYS)]], [1, ['context', 'user', 'user_properties', 'plan']], [0.5, ['context', 'user', 'x', 'k']], [0.4, []], [0.4, ['context', 'missing', 'y']], ...(flagKeys.length ? [[3, ['result', r.pick(flagKeys), r.pick(['key', 'value', 'metadata'])]]] : [])]);
const OPS = [...S.OPS.string, ...S.OPS.set];
const regexes = ['^a', 'b$', '\\d+', '.*', 'A|1', ''];
const condition = (r, flagKeys) => { const op = r.bool(0.02) ? 'bogus' : r.pick(OPS); return { selector: selector(r, flagKeys), op, values: /regex/.test(op) ? r.list(r.int(0, 2), () => r.pick(regexes)) : r.list(r.weighted([[1, 0], [5, 1], [3, 2], [2, 3]]), () => text(r)) }; };
const CUTS = [0, 1, 10, 49, 50, 51, 99, 100];
const CUTS2 = [0, 1, 10000000, 21474836, 21474837, 42949671, 42949672, 42949673];
const range = (r, cuts, h) => { if (h !== undefined && r.bool(0.5)) return r.pick([[h, h + 1], [h + 1, h + 2], [0, h], [0, h + 1], [h, h]]); const a = r.pick(cuts), b = r.pick(cuts); return a <= b ? [a, b] : [b, a]; };
const segment = (r, variants, flagKeys, ctx, plain) => {
  const s = {};
  if (!plain && r.bool(0.7)) s.conditions = r.list(r.weighted([[0.4, 0], [4, 1], [2, 2]]), () => r.list(r.weighted([[0.4, 0], [4, 1], [2, 2]]), () => condition(r, flagKeys)));
  if (r.bool(0.85)) s.variant = r.pick([...variants, 'missing']);
  if (r.bool(0.6)) s.metadata = r.pick([{ segmentName: 'S' }, { a: 1, b: 2 }, { segmentName: 'T', a: 3 }, {}]);
  if (r.bool(0.6)) {
    s.bucket = { selector: r.bool(0.8) ? ['context', 'user', 'user_id'] : selector(r), salt: r.pick(['s', '', 'salt/1', 'é']), allocations: [] };
    const bv = S.specString(S.specSelect({ context: ctx, result: {} }, s.bucket.selector));
    const h = murmur3(`${s.bucket.salt}/${bv}`);
    s.bucket.allocations = r.list(r.int(0, 3), () => ({ range: range(r, CUTS, h % 100), distributions: r.list(r.int(0, 3), () => ({ variant: r.pick([...variants, 'missing']), range: range(r, CUTS2, Math.floor(h / 100)) })) }));
  }
  return s;
};
const variantsOf = (r) => { const o = {}; for (const k of ['on', 'off', 'c']) if (r.bool(0.8)) { o[k] = { key: k }; if (r.bool(0.5)) o[k].value = r.pick(['v', k]); if (r.bool(0.3)) o[k].payload = r.pick([{ p: 1 }, [1], 'x', 0, null]); if (r.bool(0.4)) o[k].metadata = r.pick([{ default: true }, { a: 9 }, {}]); } return o; };
const flag = (r, key, flagKeys, ctx) => { const variants = variantsOf(r); const f = { key, variants, segments: r.list(r.weighted([[0.5, 0], [3, 1], [3, 2], [1, 3]]), () => segment(r, ['on', 'off', 'c'], flagKeys, ctx)) }; if (r.bool(0.4)) f.metadata = r.pick([{ a: 0, segmentName: 'F' }, { flagVersion: 1 }, {}]); return f; };
const flags = (r, ctx) => { const keys = []; return r.list(r.int(0, 4), (i) => { const k = r.bool(0.15) && keys.length ? r.pick(keys) : 'f' + i; const f = flag(r, k, keys, ctx); keys.push(k); return f; }); };

const call = (f) => { try { return { v: f() }; } catch (e) { return { thrown: true, e: String(e) }; } };
// the outcome of one condition, observed through evaluation
function observe(engine, ctx, conditions, via) {
  if (via === 'direct' && typeof engine.evaluateConditions === 'function') return call(() => engine.evaluateConditions({ context: ctx, result: {} }, conditions));
  const r = call(() => engine.evaluate(ctx, [{ key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions, variant: 'on' }] }]));
  return r.thrown ? r : { v: 'f' in r.v };
}
const conditionReplay = (pick) => async (x) => {
  const m = await load(), r = x.rng, engine = new m.EvaluationEngine();
  while (x.more()) {
    const ctx = context(r), c = condition(r);
    if (!pick(c, S.specSelect({ context: ctx, result: {} }, c.selector))) continue;
    const exp = ref(() => models.fn_matchCondition({ context: ctx, result: {} }, c));
    if (!exp) continue;
    const got = observe(engine, ctx, [[c]]);
    x.count({ ctx, c, got: got.v });
    if (exp.thrown || got.thrown) { if (!exp.thrown) x.fail('condition ' + c.op, `evaluation throws ${got.e}`, { ctx, c }); continue; }
    if (exp.v !== got.v) x.fail('condition ' + c.op, `expected ${exp.v}, got ${got.v} for ${JSON.stringify({ ctx, c })}`, { ctx, c });
  }
};
export const replays = {
  async E01(x) {
    const m = await load(), r = x.rng, engine = new m.EvaluationEngine();
    const CH = ['a', 'Z', '\x00', '\x7f', '\x80', 'é', '\u07ff', '\u0800', '日', '\uffff', '\ud7ff', '\ue000', '\ud800', '\udc00', '\udbff\udfff', '😀', '\ud800\udc00', '\udfff', '/'];
    const gen = () => r.list(r.weighted([[3, r.int(0, 9)], [2, r.int(0, 40)]]), () => (r.bool(0.7) ? r.pick(CH) : String.fromCharCode(r.int(0, 65535)))).join('');
    while (x.more()) {
      const s = gen();
      if (m.murmur.hash32x86) {
        const seed = r.bool() ? undefined : r.pick([0, 1, -1, 0x7fffffff, -0x80000000, r.int(-0x80000000, 0x7fffffff)]);
        const got = seed === undefined ? m.murmur.hash32x86(s) : m.murmur.hash32x86(s, seed), exp = murmur3(s, seed ?? 0);
        x.count({ s, seed, got });
        if (got !== exp) x.fail('hash', `hash of ${JSON.stringify(s)} seed ${seed}: expected ${exp}, got ${got}`, { s, seed });
      }
      if (!m.murmur.hash32x86 || r.bool(0.2)) { // observed through bucketing: the user is in exactly the half-open unit range of its hash
        const salt = gen(), h = murmur3(salt + '/' + s);
        if (!s) continue;
        const seg = (a, d) => [{ key: 'f', variants: { on: { key: 'on' }, off: { key: 'off' } }, segments: [{ variant: 'off', bucket: { selector: ['context', 'user', 'user_id'], salt, allocations: [{ range: [a, a + 1], distributions: [{ variant: 'on', range: [d, d + 1] }] }] } }] }];
        const got = engine.evaluate({ user: { user_id: s } }, seg(h % 100, Math.floor(h / 100)));
        x.count({ salt, s, h });
        if (got.f?.key !== 'on') x.fail('bucketing hash', `user ${JSON.stringify(s)} with salt ${JSON.stringify(salt)} is not bucketed at hash ${h}`, { s, salt, h });
      }
    }
  },
  async E02(x) {
    const m = await load(), r = x.rng, engine = new m.EvaluationEngine();
    while (x.more()) {
      const ctx = context(r), variants = { on: { key: 'on' }, off: { key: 'off' }, c: { key: 'c' } }, seg = segment(r, ['on', 'off', 'c'], [], ctx, true);
      const key = S.specBucket({ context: ctx, result: {} }, seg);
      const exp = key === undefined ? undefined : variants[key];
      const got = call(() => engine.evaluate(ctx, [{ key: 'f', variants, segments: [seg] }]));
      x.count({ ctx, seg, key });
      if (got.thrown) x.fail('bucketing throws', got.e, { ctx, seg }); else if (got.v.f?.key !== exp?.key) x.fail('bucketing', `expected variant ${exp?.key}, got ${got.v.f?.key} for ${JSON.stringify({ ctx, seg })}`, { ctx, seg });
    }
  },
  async E03(x) {
    const m = await load(), r = x.rng, engine = new m.EvaluationEngine();
    while (x.more()) {
      const ctx = context(r), f = flag(r, 'f', [], ctx);
      const exp = ref(() => S.specFlag({ context: ctx, result: {} }, f));
      if (!exp || exp.thrown) continue;
      const got = call(() => engine.evaluate(ctx, [f]));
      x.count({ ctx, f });
      if (got.thrown) x.fail('evaluation throws', got.e, { ctx, f }); else if (!same(got.v.f, exp.v)) x.fail('variant of a flag', `expected ${JSON.stringify(exp.v)}, got ${JSON.stringify(got.v.f)}`, { ctx, f });
    }
  },
  async E04(x) {
    const m = await load(), r = x.rng, engine = new m.EvaluationEngine();
    while (x.more()) {
      const ctx = context(r), groups = r.list(r.int(0, 3), () => r.list(r.int(0, 3), () => condition(r)));
      const exp = ref(() => models.fn_condition_groups({ context: ctx, result: {} }, groups));
      if (!exp || exp.thrown) continue;
      const got = observe(engine, ctx, groups, r.pick(['direct', 'flag']));
      x.count({ ctx, groups });
      if (got.thrown) x.fail('conditions throw', got.e, { ctx, groups }); else if (got.v !== exp.v) x.fail('condition groups', `expected ${exp.v}, got ${got.v}`, { ctx, groups });
      const path = r.list(r.int(0, 4), () => r.pick(['context', 'user', 'x', 'k', 'plan', '', '0', 'length']));
      const v = S.specSelect({ context: ctx, result: {} }, path);
      const g2 = observe(engine, ctx, [[{ selector: path, op: 'is', values: ['(none)'] }]]);
      if (v === undefined || v === null) { if (g2.thrown || g2.v !== true) x.fail('selector', `absent property not seen as absent: ${JSON.stringify({ ctx, path })}`, { ctx, path }); }
    }
  },
  E05: conditionReplay((c, v) => (v === undefined || v === null) || !S.isSetOp(c.op) && !S.listOf(v) && !/less|greater/.test(c.op)),
  E06: conditionReplay((c, v) => v !== undefined && v !== null && (S.isSetOp(c.op) || !!S.listOf(v))),
  async E07(x) {
    const m = await load(), r = x.rng, engine = new m.EvaluationEngine();
    const NUM = ['0', '-0', '1', '10', '9', '2', '1e2', '0x10', ' 5 ', '-1', '1.5', 'Infinity', '', 'abc', '007', '1.10', '1.9', '+5'];
    const VER = ['1.2', '1.2.0', '1.2.3', '1.10.0', '1.9.9', '1.2.3-a', '1.2.3-b', '2.0.0', '0.0', '10.0', '9.9', '1.2.3-a.b', '01.02.03', '1.2.3-B', '1', 'x', '1.2.3-10', '1.2.3-9', '1.2.0-a'];
    while (x.more()) {
      const ver = r.bool(), op = (ver ? 'version ' : '') + r.pick(['less', 'less or equal', 'greater', 'greater or equal']);
      const p = r.pick(ver ? VER : NUM), values = r.list(r.int(0, 3), () => r.pick(ver ? VER : NUM));
      const ctx = { user: { x: ver || r.bool(0.7) || p.trim() !== String(Number(p)) ? p : Number(p) } }, c = { selector: ['context', 'user', 'x'], op, values };
      if (!ver && (isNaN(Number(p)))) continue;
      const exp = ref(() => models.fn_matchCondition({ context: ctx, result: {} }, c));
      if (!exp || exp.thrown) continue;
      const got = observe(engine, ctx, [[c]]);
      x.count({ p, op, values });
      if (got.thrown || got.v !== exp.v) x.fail('order ' + op, `${JSON.stringify(p)} ${op} ${JSON.stringify(values)}: expected ${exp.v}, got ${got.thrown ? got.e : got.v}`, { p, op, values });
      // total order, observed pairwise
      const [a, b, d] = [r.pick(VER), r.pick(VER), r.pick(VER)];
      if ([a, b, d].every(parseVersion)) {
        const le = (u, w) => observe(engine, { user: { x: u } }, [[{ selector: ['context', 'user', 'x'], op: 'version less or equal', values: [w] }]]).v;
        if (!(le(a, b) || le(b, a))) x.fail('version order total', `${a} and ${b} are not ordered`, { a, b });
        if (le(a, b) && le(b, d) && !le(a, d)) x.fail('version order transitive', `${a} <= ${b} <= ${d} but not ${a} <= ${d}`, { a, b, d });
      }
    }
  },
  async E08(x) {
    const m = await load(), r = x.rng, engine = new m.EvaluationEngine();
    while (x.more()) {
      const ctx = context(r), fs = flags(r, ctx);
      const exp = ref(() => S.specEvaluate(ctx, fs));
      if (!exp || exp.thrown) continue;
      const c0 = clone(ctx), f0 = clone(fs);
      const got = call(() => engine.evaluate(ctx, fs));
      x.count({ ctx, fs });
      if (got.thrown) x.fail('evaluation throws', got.e, { ctx, fs });
      else if (!same(got.v, exp.v)) x.fail('evaluation of a list', `expected ${JSON.stringify(exp.v)}, got ${JSON.stringify(got.v)}`, { ctx, fs });
      if (!same(ctx, c0)) x.fail('context modified', JSON.stringify(ctx), { before: c0, fs: f0 });
      if (!same(fs, f0)) x.fail('flags modified', JSON.stringify(fs), { ctx: c0, before: f0 });
      if (!got.thrown && r.bool(0.3)) { const again = call(() => engine.evaluate(ctx, fs)); if (again.thrown || !same(again.v, exp.v)) x.fail('evaluation is not repeatable', JSON.stringify(again.v), { ctx, fs }); }
    }
  },
  async E09(x) {
    const m = await load(), r = x.rng, engine = new m.EvaluationEngine();
    while (x.more()) {
      const ctx = context(r), fs = flags(r, ctx);
      const a = call(() => engine.evaluate(ctx, fs)), b = call(() => engine.evaluateWithTraces(ctx, fs));
      if (a.thrown) continue;
      x.count({ ctx, fs });
      if (b.thrown) { x.fail('tracing throws', b.e, { ctx, fs }); continue; }
      if (!same(a.v, b.v.results)) x.fail('traced variants differ', `${JSON.stringify(a.v)} vs ${JSON.stringify(b.v.results)}`, { ctx, fs });
      const keys = [...new Set(fs.map((f) => f.key))].sort();
      if (!same(Object.keys(b.v.traces).sort(), keys)) x.fail('trace keys', JSON.stringify(Object.keys(b.v.traces)), { ctx, fs });
      const last = Object.fromEntries(fs.map((f) => [f.key, f]));
      for (const k of keys) {
        const only = fs.filter((f) => f.key === k);
        if (only.length === 1 && b.v.traces[k].matched !== (k in a.v)) x.fail('trace matched', `${k}: matched ${b.v.traces[k].matched}, variant ${JSON.stringify(a.v[k])}`, { ctx, fs });
        if (b.v.traces[k].flagKey !== last[k].key) x.fail('trace key', b.v.traces[k].flagKey, { ctx, fs });
      }
    }
  },
  async E10(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const n = r.int(0, 6), keys = r.list(n, (i) => 'k' + i), fl = {};
      const dag = r.bool(0.7);
      for (let i = 0; i < n; i++) { const pool = dag ? keys.slice(0, i) : keys; fl[keys[i]] = { key: keys[i], variants: {}, segments: [] }; if (r.bool(0.8)) fl[keys[i]].dependencies = [...r.shuffle(r.subset(pool, dag ? 0.5 : 0.25)), ...(r.bool(0.15) ? ['ghost'] : [])]; if (r.bool(0.05) && fl[keys[i]].dependencies?.length) fl[keys[i]].dependencies.push(fl[keys[i]].dependencies[0]); }
      const shuffled = Object.fromEntries(r.shuffle(Object.entries(fl)));
      const req = r.bool() ? undefined : r.shuffle(r.subset([...keys, 'ghost'], 0.5));
      const before = clone(shuffled);
      const got = call(() => m.topologicalSort(shuffled, req));
      x.count({ fl: before, req });
      const reach = new Set(), state = new Map();
      let cyc = false;
      const visit = (k) => { if (!fl[k]) return; if (state.get(k) === 1) { cyc = true; return; } if (state.get(k) === 2) return; state.set(k, 1); reach.add(k); for (const d of fl[k].dependencies || []) visit(d); state.set(k, 2); };
      for (const k of req || keys) visit(k);
      if (cyc !== !!got.thrown) { x.fail('cycle', `cyclic: ${cyc}, error: ${got.e}`, { flags: before, req }); continue; }
      if (!same(before, clone(shuffled))) x.fail('flags modified', '', { flags: before, req });
      if (cyc) continue;
      const out = got.v.map((f) => f.key);
      if (!same([...out].sort(), [...reach].sort())) x.fail('flags returned', `expected ${[...reach].sort()}, got ${out}`, { flags: before, req });
      for (const k of out) for (const d of fl[k]?.dependencies || []) if (fl[d] && out.indexOf(d) > out.indexOf(k)) x.fail('order', `${d} comes after ${k}: ${out}`, { flags: before, req });
    }
  },
};
