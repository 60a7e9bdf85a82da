// B01-B16 executed as oracles on packages/experiment-browser (and the API clients of packages/experiment-core)
import { bundle } from '../lib/bundle.mjs';
import { eq } from './connector.mjs';
let M = null;
async function load() {
  if (M) return M;
  const S = 'experiment-browser/src/';
  M = await bundle((p, has) => [
    [S + 'index.ts', '*'], [S + 'storage/cache.ts', '{ getVariantStorage, getFlagStorage, getVariantsOptionsStorage }'], [S + 'integration/manager.ts', '{ SessionDedupeCache, PersistentTrackingQueue }'],
    [S + 'util/userSessionExposureTracker.ts', '{ UserSessionExposureTracker }'], [S + 'util/sessionAnalyticsProvider.ts', '{ SessionAnalyticsProvider }'], [S + 'util/backoff.ts', '{ Backoff }'],
    [S + 'util/convert.ts', '{ convertUserToContext, convertVariant, convertEvaluationVariantToVariant }'], [S + 'logger/ampLogger.ts', '{ AmpLogger }'],
    ['experiment-core/src/index.ts', '{ SdkEvaluationApi, SdkFlagApi }'],
  ].filter(([f]) => has(f)).map(([f, what]) => `export ${what} from ${JSON.stringify(p(f))};`).join('\n'));
  return M;
}
const text = (v) => JSON.stringify(v);
const clone = (v) => (v === undefined ? undefined : JSON.parse(JSON.stringify(v)));
const KEYS = ['flag-a', 'flag-b', 'flag-c', 'flag-d'];
const VALUES = ['on', 'off', 'treatment', 'control'];
class Store {
  constructor(full) { this.d = {}; this.full = full; }
  getItem(k) { return Object.prototype.hasOwnProperty.call(this.d, k) ? this.d[k] : null; }
  setItem(k, v) { if (this.full && k !== 'EXP_test') throw new Error('QuotaExceededError'); this.d[k] = String(v); }
  removeItem(k) { delete this.d[k]; }
}
// the page: fresh storages for one run; everything is put back afterwards
function page({ local = new Store(), session = new Store(), href } = {}) {
  const set = (k, v) => Object.defineProperty(globalThis, k, { value: v, configurable: true, writable: true, enumerable: false });
  set('localStorage', local); set('sessionStorage', session);
  if (href === undefined) delete globalThis.location; else set('location', { href });
  return { local, session };
}
const realTimers = { setTimeout: globalThis.setTimeout, clearTimeout: globalThis.clearTimeout, setInterval: globalThis.setInterval, clearInterval: globalThis.clearInterval };
const settle = async () => { for (let i = 0; i < 3; i++) await new Promise((f) => setImmediate(f)); };
function timers() {
  const t = { now: 0, q: [], log: [], intervals: [], n: 1 };
  globalThis.setTimeout = (fn, ms) => { const id = t.n++; t.q.push({ id, fn, at: t.now + (ms || 0), ms }); t.log.push(ms); return id; };
  globalThis.clearTimeout = (id) => { t.q = t.q.filter((e) => e.id !== id); };
  globalThis.setInterval = (fn, ms) => { const id = t.n++; t.intervals.push({ id, fn, ms }); return id; };
  globalThis.clearInterval = (id) => { t.intervals = t.intervals.filter((e) => e.id !== id); };
  t.step = async () => { if (!t.q.length) return false; t.q.sort((a, b) => a.at - b.at || a.id - b.id); const e = t.q.shift(); t.now = e.at; e.fn(); await settle(); return true; };
  t.restore = () => Object.assign(globalThis, realTimers);
  return t;
}
function variant(r, more = {}) {
  const v = {};
  const val = r.pick(VALUES);
  if (r.bool(0.85)) v.key = r.bool(0.8) ? val : r.pick(VALUES);
  if (r.bool(0.85)) v.value = val;
  if (r.bool(0.3)) v.payload = r.pick([1, 'p', { a: 1 }, [1, 2]]);
  const meta = {};
  if (r.bool(0.3)) meta.default = true; else if (r.bool(0.1)) meta.default = false;
  if (r.bool(0.2)) meta.trackExposure = r.bool();
  if (r.bool(0.3)) meta.experimentKey = r.pick(['exp-1', 'exp-2']);
  Object.assign(meta, more);
  if (Object.keys(meta).length) v.metadata = meta;
  if (meta.experimentKey) v.expKey = meta.experimentKey;
  if (!v.key && v.value) v.key = v.value;
  return v;
}
const some = (r, p, f) => (r.bool(p) ? f() : undefined);
function localFlag(r, key, local) {
  const val = r.pick(VALUES), dflt = r.bool(0.35);
  return { key, variants: { [val]: { key: val, value: r.bool(0.85) ? val : undefined, metadata: dflt ? { default: true } : undefined } }, segments: r.bool(0.85) ? [{ variant: val }] : [], metadata: local ? { evaluationMode: 'local', ...(r.bool(0.1) ? { trackExposure: false } : {}) } : {} };
}
const evaluated = (f) => {
  if (!f || !f.segments.length) return null;
  const val = f.segments[0].variant, v = f.variants[val];
  return { key: v.key, ...(v.value ? { value: v.value } : {}), metadata: { ...f.metadata, ...v.metadata } };
};
const conv = (v) => (v === null || v === undefined ? {} : typeof v === 'string' ? { key: v, value: v } : v);
const nothing = (v) => v === null || v === undefined || Object.keys(v).length === 0;
// the documented order of a lookup
function order(c, key, fallback) {
  const stored = c.stored[key], initial = c.initial[key], flag = c.flags.find((f) => f.key === key), isLocal = flag && flag.metadata.evaluationMode === 'local';
  const walk = (steps) => {
    let dflt = null;
    for (const [src, v] of steps) {
      if (src === 'config') { if (!nothing(v)) return { v, src: 'fallback', hasDefault: !!dflt }; continue; }
      if (v === null || v === undefined) continue;
      if (src === 'real' && v.metadata && v.metadata.default) { dflt = dflt || v; continue; }
      return { v: conv(v), src: src === 'first' ? 'real' : src, hasDefault: !!dflt };
    }
    return dflt ? { v: dflt, src: 'real', hasDefault: true } : null;
  };
  const loc = () => walk([['real', evaluated(flag)], ['fallback', fallback], ['fallback', initial], ['config', conv(c.fallbackVariant)]]);
  if (isLocal) return loc();
  const r = c.source === 'localStorage' ? walk([['real', stored], ['fallback', fallback], ['fallback', initial], ['config', conv(c.fallbackVariant)]])
    : walk([['first', initial], ['real', stored], ['fallback', fallback], ['config', conv(c.fallbackVariant)]]);
  if (!r && flag) return loc();
  return r;
}
function setup(m, r, more = {}) {
  const c = { source: r.pick(['localStorage', 'initialVariants']), stored: {}, initial: {}, flags: [], fallbackVariant: some(r, 0.35, () => variant(r)), key: 'client-key-abcdef', ...more };
  for (const k of r.subset(KEYS, 0.5)) c.stored[k] = variant(r);
  for (const k of r.subset(KEYS, 0.4)) c.initial[k] = variant(r);
  for (const k of r.subset(KEYS, 0.4)) c.flags.push(localFlag(r, k, r.bool(0.7)));
  const { local } = page();
  local.setItem('amp-exp-$default_instance-abcdef', text(c.stored));
  c.exposures = [];
  c.config = { source: c.source, initialVariants: clone(c.initial), initialFlags: c.flags.length ? text(c.flags) : undefined, fallbackVariant: clone(c.fallbackVariant), fetchOnStart: false, pollOnStart: false,
    exposureTrackingProvider: { track: (e) => c.exposures.push(clone(e)) }, ...more.config };
  c.client = new m.ExperimentClient(c.key, c.config);
  return c;
}
const show = (c) => ({ source: c.source, stored: c.stored, initial: c.initial, flags: c.flags, fallbackVariant: c.fallbackVariant });
const core = (v) => (v ? { key: v.key, value: v.value, payload: v.payload, default: v.metadata && v.metadata.default } : v);
const http = (script) => { const calls = []; return { calls, request: async (url, method, headers, data, timeout) => { calls.push({ url, method, headers, timeout }); const a = typeof script === 'function' ? script(url, calls.length) : script; if (a instanceof Error) throw a; return a; } }; };
const decode = (s) => JSON.parse(Buffer.from(s, 'base64url').toString('utf8'));
const wire = (vs) => Object.fromEntries(Object.entries(vs).map(([k, v]) => { const o = { ...v }; delete o.expKey; return [k, o]; }));
export const replays = {
  async B01(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const c = setup(m, r, { config: { automaticExposureTracking: r.bool() } });
      for (const key of KEYS) {
        const fallback = r.pick([undefined, undefined, null, 'inline', '', {}, { value: 'inline', key: 'inline' }]);
        const exp = order(c, key, fallback), got = c.client.variant(key, fallback), want = exp ? exp.v : {};
        x.count({ ...show(c), key, fallback });
        if (!eq(clone(core(got)), clone(core(want)))) x.fail('lookup', `variant(${key}, ${text(fallback)}) is ${text(got)}, expected ${text(want)}`, { ...show(c), key, fallback });
      }
      if (r.bool(0.1)) {
        const e = setup(m, r, { key: '' });
        const got = e.client.variant(KEYS[0], 'x');
        if (got.value !== undefined || got.key !== undefined || e.exposures.length) x.fail('no key', `with an empty API key variant is ${text(got)}`, {});
      }
    }
    page();
  },
  async B02(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const c = setup(m, r), got = c.client.all(), want = c.source === 'localStorage' ? { ...c.initial, ...c.stored } : { ...c.stored, ...c.initial };
      for (const f of c.flags) if (f.metadata.evaluationMode === 'local' && evaluated(f)) want[f.key] = evaluated(f);
      x.count(show(c));
      const p = (o) => clone(Object.fromEntries(Object.entries(o).map(([k, v]) => [k, core(v)])));
      if (!eq(p(got), p(want))) x.fail('all', `all() is ${text(got)}, expected ${text(want)}`, show(c));
      if (!eq(p(c.client.all()), p(got))) x.fail('twice', 'listing twice differs', show(c));
      if (!eq(clone(c.config.initialVariants), clone(c.initial)) || globalThis.localStorage.getItem('amp-exp-$default_instance-abcdef') !== text(c.stored)) x.fail('changed', 'listing changed its sources', show(c));
    }
    page();
  },
  async B03(x) {
    const m = await load(), r = x.rng, K = 'amp-exp-$default_instance-abcdef';
    while (x.more()) {
      const { local } = page({ local: new Store() }), stored = {};
      for (const k of r.subset(KEYS, 0.6)) stored[k] = variant(r);
      local.setItem(K, text(stored));
      const answer = Object.fromEntries(r.subset(KEYS, 0.5).map((k) => [k, variant(r)])), fails = r.bool(0.2), keys = some(r, 0.5, () => r.shuffle(r.subset(KEYS, 0.5))), full = r.bool(0.2);
      const h = http(fails ? r.pick([{ status: 400, body: '' }, new Error('x')]) : { status: 200, body: text(wire(answer)) });
      const client = new m.ExperimentClient('client-key-abcdef', { httpClient: h, retryFetchOnFailure: false, fetchOnStart: false });
      if (full) local.full = true;
      const kept = keys ? keys.slice() : keys;
      await client.fetch({ user_id: 'u' }, keys ? { flagKeys: keys } : undefined);
      const want = fails ? stored : keys && keys.length ? Object.fromEntries(Object.entries({ ...Object.fromEntries(Object.entries(stored).filter(([k]) => !keys.includes(k))), ...answer })) : answer;
      const got = client.all(), input = { stored, answer, fails, keys, full };
      x.count(input);
      if (!eq(clone(got), clone(want))) x.fail('variants', `after the fetch ${text(got)}, expected ${text(want)}`, input);
      if (!eq(keys, kept)) x.fail('keys', 'the list of keys was changed', input);
      local.full = false;
      if (!full && !eq(JSON.parse(local.getItem(K)), clone(want))) x.fail('persisted', `persisted ${local.getItem(K)}, expected ${text(want)}`, input);
      if (full && local.getItem(K) !== text(stored)) x.fail('persisted (full)', 'the full storage changed', input);
    }
    page();
  },
  async B04(x) {
    const m = await load(), r = x.rng, K = 'amp-exp-$default_instance-abcdef-flags';
    const t = timers();
    try {
      while (x.more()) {
        const { local } = page(), mk = (v) => r.subset(KEYS, 0.5).map((k) => ({ key: k, variants: { [v]: { key: v, value: v } }, segments: [{ variant: v }], metadata: { evaluationMode: 'local' } }));
        const cached = mk('cached'), initial = mk('initial'), server = mk('server'), answer = r.weighted([[4, 'ok'], [1, 'status'], [1, 'error']]);
        local.setItem(K, text(Object.fromEntries(cached.map((f) => [f.key, f]))));
        const h = http(answer === 'ok' ? { status: 200, body: text(server) } : answer === 'status' ? { status: 500, body: '' } : new Error('net'));
        const client = new m.ExperimentClient('client-key-abcdef', { httpClient: h, initialFlags: r.bool(0.8) || initial.length ? text(initial) : undefined, fetchOnStart: false, pollOnStart: false, automaticExposureTracking: false });
        const view = () => Object.fromEntries(Object.entries(client.all()).map(([k, v]) => [k, v.value])), over = (a, b) => ({ ...Object.fromEntries(b.map((f) => [f.key, f.segments[0].variant])), ...Object.fromEntries(a.map((f) => [f.key, f.segments[0].variant])) });
        const input = { cached: cached.map((f) => f.key), initial: initial.map((f) => f.key), server: server.map((f) => f.key), answer };
        x.count(input);
        if (!eq(view(), over(cached, initial))) x.fail('start', `at start ${text(view())}`, input);
        await client.start({ user_id: 'u' });
        const want = answer === 'ok' ? over(server, initial) : over(cached, initial);
        if (!eq(view(), want)) x.fail('refresh', `after the refresh ${text(view())}, expected ${text(want)}`, input);
        if (answer === 'ok' && !eq(JSON.parse(local.getItem(K)), Object.fromEntries(server.map((f) => [f.key, f])))) x.fail('persisted', `persisted ${local.getItem(K)}`, input);
        client.stop();
      }
    } finally { t.restore(); page(); }
  },
  async B05(x) {
    const m = await load(), r = x.rng, spaces = new Map();
    const mem = () => { const d = {}; return { d, get: (k) => (k in d ? d[k] : null), put: (k, v) => { d[k] = v; }, delete: (k) => { delete d[k]; } }; };
    const specV = (v) => {
      if (typeof v === 'string') return { key: v, value: v };
      if (v === null || typeof v !== 'object') return undefined;
      const o = {}, meta = v.metadata ? { ...v.metadata } : undefined, exp = meta && meta.experimentKey ? meta.experimentKey : v.expKey;
      if (v.key) o.key = v.key; else if (v.value) o.key = v.value;
      if (v.value) o.value = v.value; if (v.payload) o.payload = v.payload; if (exp) o.expKey = exp;
      if (exp || meta) o.metadata = { ...(meta || {}), ...(exp ? { experimentKey: exp } : {}) };
      return o;
    };
    while (x.more()) {
      const inst = r.pick(['$default_instance', 'a', 'b', 'x-flags', 'a-b']), dep = r.pick(['client-abcdef', 'other-abcdef', 'client-ghijkl', 'abc', '']), st = mem();
      const a = m.getVariantStorage(dep, inst, st), content = {};
      for (const k of r.subset([...KEYS, '', '0', 'ключ'], 0.5)) content[k] = variant(r);
      for (const k of Object.keys(content)) a.put(k, clone(content[k]));
      a.store();
      const [name] = Object.keys(st.d), b = m.getVariantStorage(dep, inst, st);
      b.load();
      x.count({ inst, dep, content });
      if (!eq(clone(b.getAll()), clone(content))) x.fail('reload', `${text(content)} is reloaded as ${text(b.getAll())}`, { content });
      const f = m.getFlagStorage(dep, inst, st), g = m.getVariantsOptionsStorage(dep, inst, st), flags = Object.fromEntries(KEYS.slice(0, 2).map((k) => [k, { key: k, variants: {}, segments: [] }]));
      f.putAll(flags); f.store(); g.put({ trackingOption: 'track' }); g.store();
      const f2 = m.getFlagStorage(dep, inst, st), g2 = m.getVariantsOptionsStorage(dep, inst, st);
      f2.load(); g2.load();
      if (!eq(clone(f2.getAll()), flags) || !eq(clone(g2.get()), { trackingOption: 'track' })) x.fail('kinds', 'flags or options are not reloaded', { inst, dep });
      if (Object.keys(st.d).length !== 3) x.fail('shared key', `kinds share a key: ${text(Object.keys(st.d))}`, { inst, dep });
      const id = text([inst, dep.slice(-6)]);
      if (spaces.has(name) && spaces.get(name) !== id) x.fail('shared key', `${name} is shared by ${spaces.get(name)} and ${id}`, {});
      spaces.set(name, id);
      // content another version or a fault left behind
      const raw = Object.fromEntries(r.subset(KEYS, 0.7).map((k) => [k, r.weighted([[2, 'on'], [3, variant(r)], [1, null], [1, 5], [1, true], [1, ''], [1, { value: 'v', expKey: 'e' }], [0.6, { value: 'v', expKey: 'old', metadata: { experimentKey: 'new' } }], [1, { value: 'v', metadata: { experimentKey: 'e' } }], [1, []]])]));
      const d = m.getVariantStorage(dep, inst, st);
      st.d[name] = text(raw); d.load();
      const want = Object.fromEntries(Object.entries(raw).map(([k, v]) => [k, Array.isArray(v) ? {} : specV(v)]).filter(([, v]) => v));
      if (!eq(clone(d.getAll()), clone(want))) x.fail('legacy', `${text(raw)} loads as ${text(d.getAll())}, expected ${text(want)}`, { raw });
      const before = clone(d.getAll());
      st.d[name] = r.pick(['{', 'undefined', '{"a":', 'x']);
      try { d.load(); } catch (e) { x.fail('unreadable', `loading ${st.d[name]} fails: ${e.message}`, {}); }
      if (!eq(clone(d.getAll()), before)) x.fail('unreadable', `loading ${st.d[name]} changed the cache`, {});
    }
  },
  async B06(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const auto = r.bool(), c = setup(m, r, { config: { automaticExposureTracking: auto } }), key = r.pick(KEYS), explicit = r.bool();
      const fallback = explicit ? undefined : r.pick([undefined, undefined, 'inline', { key: 'inline', value: 'inline', metadata: { trackExposure: true } }]), exp = order(c, key, fallback), v = exp ? exp.v : {};
      if (explicit) c.client.exposure(key); else c.client.variant(key, fallback);
      let want = null;
      const meta = v.metadata, fb = !exp || exp.src === 'fallback';
      if ((explicit || auto) && (meta?.trackExposure ?? true) && !(exp && fb && !exp.hasDefault)) {
        want = { flag_key: key, ...(v.expKey || meta?.experimentKey ? { experiment_key: v.expKey || meta.experimentKey } : {}), ...(meta ? { metadata: meta } : {}) };
        if (!fb && !meta?.default && (v.key || v.value)) want.variant = v.key || v.value;
      }
      const input = { ...show(c), key, fallback, explicit, auto };
      x.count(input);
      if (c.exposures.length !== (want ? 1 : 0) && (exp || c.exposures.length > 1 || c.exposures[0]?.variant)) x.fail('sent', `exposures ${text(c.exposures)}, expected ${text(want)}`, input);
      else if (want && exp && !eq(clone(c.exposures[0]), clone(want))) x.fail('content', `exposure ${text(c.exposures[0])}, expected ${text(want)}`, input);
    }
    page();
  },
  async B07(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const got = [], t = new m.UserSessionExposureTracker({ track: (e) => got.push(e) }), hist = [], want = [];
      let tracked = new Map(), id = [undefined, undefined];
      for (let i = r.int(1, 14); i > 0; i--) {
        const e = { flag_key: r.pick(KEYS.slice(0, 2)), variant: r.pick(['on', 'off', undefined]) }, u = r.weighted([[4, hist.length ? hist[hist.length - 1][1] : undefined], [1, { user_id: r.pick(['a', 'b', undefined]), device_id: r.pick(['d', undefined]) }], [0.4, undefined]]);
        const now = [u?.user_id, u?.device_id];
        if (now[0] !== id[0] || now[1] !== id[1]) tracked = new Map();
        id = now;
        if (!(tracked.has(e.flag_key) && tracked.get(e.flag_key) === e.variant)) { want.push(e); tracked.set(e.flag_key, e.variant); }
        hist.push([e, u]); t.track(e, u);
      }
      x.count(hist);
      if (!eq(got, want)) x.fail('exposures', `tracked ${text(got)}, expected ${text(want)}`, { hist });
      const calls = [], w = new m.SessionAnalyticsProvider({ track: (e) => calls.push(['track', e.key, e.variant.value]), setUserProperty: (e) => calls.push(['set', e.key, e.variant.value]), unsetUserProperty: (e) => calls.push(['unset', e.key]) });
      const exp = [], set = {}, unset = {}, h2 = [];
      for (let i = r.int(1, 12); i > 0; i--) {
        const key = r.pick(KEYS.slice(0, 2)), value = r.pick(['on', 'off']), op = r.pick(['setTrack', 'setTrack', 'unset', 'set']), e = { key, variant: { value }, properties: {}, userProperties: {} };
        h2.push([op, key, value]);
        if (op === 'unset') { if (!unset[key]) { unset[key] = true; delete set[key]; exp.push(['unset', key]); } w.unsetUserProperty(e); } else {
          if (set[key] !== value) exp.push(['set', key, value]);
          w.setUserProperty(e);
          if (op === 'setTrack') { if (set[key] !== value) { set[key] = value; delete unset[key]; exp.push(['track', key, value]); } w.track(e); }
        }
      }
      if (!eq(calls, exp)) x.fail('analytics', `forwarded ${text(calls)}, expected ${text(exp)}`, { h2 });
    }
  },
  async B08(x) {
    const m = await load(), r = x.rng;
    const same = (a, b) => (a.u && b.u ? a.u === b.u : !a.u && !b.u ? a.d === b.d : false);
    // the two histories of the known findings
    for (const [key, after] of [['reload of an identified user', { user_id: 'a', device_id: 'd' }], ['reload, then a visitor without ids', undefined]]) {
      page();
      const e = { flag_key: 'f', variant: 'on' };
      new m.SessionDedupeCache('i').shouldTrack(e, { user_id: 'a', device_id: 'd' });
      const got = new m.SessionDedupeCache('i').shouldTrack(e, after);
      if (got !== !after) x.fail(key, `${text(e)} for ${text(after)} ${got ? 'is' : 'is not'} sent after a reload`, {});
    }
    while (x.more()) {
      const session = r.weighted([[4, () => new Store()], [1, () => new Store(true)], [1, () => undefined]])(), kind = !session ? 'none' : session.full ? 'full' : 'some';
      page({ session });
      let cache = new m.SessionDedupeCache('i'), rec = new Map(), id = { u: undefined, d: undefined }, id0 = null, reloaded = false;
      const hist = [];
      for (let i = r.int(1, 14); i > 0; i--) {
        if (kind === 'some' && r.bool(0.12)) { cache = new m.SessionDedupeCache('i'); hist.push('reload'); reloaded = true; }
        const prev = hist.filter((h) => h !== 'reload').pop();
        const u = r.weighted([[5, prev ? prev[1] : undefined], [1, { user_id: r.pick(['a', 'b', undefined, '']), device_id: r.pick(['d', 'e', undefined]) }]]), web = r.bool(0.1), v = r.pick(['on', 'off', undefined, null]);
        const e = { flag_key: r.pick(KEYS.slice(0, 2)), ...(v === undefined ? {} : { variant: v }), ...(web ? { metadata: { deliveryMethod: 'web' } } : {}) };
        const got = cache.shouldTrack(e, u), now = { u: u?.user_id, d: u?.device_id };
        hist.push([e, u]);
        x.count({ hist, kind });
        let want = true, lost = null;
        if (!web) {
          // the identity is not kept across a reload (known findings): records of an identified user start afresh,
          // those of an identified user are taken for those of a visitor without ids
          const anon = same({}, now);
          if (!same(id, now)) { rec = new Map(); if (reloaded && anon) lost = 'reload, then a visitor without ids'; } else if (reloaded && !anon) lost = 'reload of an identified user';
          id = now; reloaded = false;
          want = !(rec.has(e.flag_key) && rec.get(e.flag_key) === (e.variant ?? null));
          rec.set(e.flag_key, e.variant ?? null);
        }
        if (got !== want) {
          x.fail(lost || 'dedupe', `${text(e)} for ${text(u)} ${got ? 'is' : 'is not'} sent, after ${text(hist.slice(0, -1))} (session storage: ${kind})`, { hist, kind });
          if (!lost) break;
        }
        if (lost) break;
      }
      if (kind === 'some' && cache) {
        // across instances the records are kept: an anonymous visitor without ids
        page({ session: new Store() });
        const e = { flag_key: 'f', variant: 'on' };
        new m.SessionDedupeCache('i').shouldTrack(e, undefined);
        if (new m.SessionDedupeCache('i').shouldTrack(e, undefined)) x.fail('persisted', 'records do not survive a reload in the session', {});
        if (!new m.SessionDedupeCache('j').shouldTrack(e, undefined)) x.fail('instances', 'records are shared by instances', {});
      }
    }
    page();
  },
  async B09(x) {
    const m = await load(), r = x.rng;
    const t = timers();
    try {
      while (x.more()) {
        const { local } = page(), cap = r.pick([1, 2, 3, 5, 512]), hist = [];
        t.intervals = [];
        let q = new m.PersistentTrackingQueue('i', cap), queue = [], mode = 'ok', id = 0, set = false, budget = 0, got = [], want = [];
        const tracker = (e) => { got.push(e.eventType); if (mode === 'throw') throw new Error('t'); if (mode === 'ok') return true; if (mode === 'budget') return budget-- > 0; return false; };
        const offer = () => { if (!set) return; while (queue.length) { want.push(queue[0]); if (mode === 'ok' || (mode === 'budget' && spare > 0)) { if (mode === 'budget') spare--; queue.shift(); } else break; } };
        let spare = 0, mem = false;
        for (let i = r.int(1, 16); i > 0; i--) {
          const op = r.weighted([[5, 'push'], [2, 'mode'], [1, 'tracker'], [1, 'tick'], [0.5, 'reload'], [0.2, 'full']]);
          got = []; want = [];
          if (op === 'full') { local.full = true; hist.push(op); continue; }
          if (op === 'mode') { mode = r.pick(['ok', 'no', 'throw', 'budget']); spare = budget = r.int(0, 3); hist.push(`${mode} ${budget}`); continue; }
          hist.push(op);
          try {
            if (op === 'push') { const e = { eventType: `e${id++}` }; queue.push(e.eventType); offer(); q.push(e); } else if (op === 'tracker') { if (set) continue; set = true; offer(); q.setTracker(tracker); } else if (op === 'reload') { q = new m.PersistentTrackingQueue('i', cap); set = false; t.intervals = []; if (mem) queue = []; mem = false; continue; } else { if (!t.intervals.length) continue; offer(); t.intervals[0].fn(); }
          } catch (e) { x.fail('error', `${op} fails: ${e.message} (${hist.join(', ')})`, { hist, cap }); break; }
          if (!mem && queue.length > cap) queue = queue.slice(queue.length - cap);
          if (local.full) mem = true;
          x.count(hist);
          if (!eq(got, want)) { x.fail('offers', `offered ${text(got)}, expected ${text(want)} (${hist.join(', ')}; cap ${cap})`, { hist, cap }); break; }
          const kept = JSON.parse(local.getItem('EXP_unsent_i') || '[]').map((e) => e.eventType);
          if (!eq(kept, mem ? [] : queue)) { x.fail('persisted', `persisted ${text(kept)}, expected ${text(mem ? [] : queue)} (${hist.join(', ')}; cap ${cap})`, { hist, cap }); break; }
        }
      }
    } finally { t.restore(); page(); }
  },
  async B10(x) {
    const m = await load(), r = x.rng;
    const t = timers();
    try {
      while (x.more()) {
        t.q = []; t.log = []; t.now = 0; t.intervals = [];
        if (r.bool(0.4)) {
          const n = r.int(1, 6), min = r.pick([1, 100, 500]), max = r.pick([100, 1000, 10000]), f = r.pick([1, 1.5, 2]), good = r.int(0, 7), stop = some(r, 0.3, () => r.int(0, 5));
          const b = new m.Backoff(n, min, max, f);
          let runs = 0;
          void b.start(async () => { runs++; if (runs - 1 !== good) throw new Error('x'); });
          await settle();
          for (let i = 0; i < 10; i++) { if (stop === i) { b.cancel(); } if (!(await t.step())) break; }
          const total = Math.min(stop === undefined ? Infinity : stop, n, good + 1), delays = [];
          for (let k = 0, d = min; k < n; k++) { delays.push(k === 0 ? min : Math.min(d, max)); d = Math.min(d * f, max); }
          const input = { n, min, max, f, good, stop };
          x.count(input);
          if (runs !== total) x.fail('attempts', `${runs} attempts, expected ${total}: ${text(input)}`, input);
          const seen = t.log.slice(0, total);
          if (seen.some((d, i) => Math.abs(d - delays[i]) > 1e-9)) x.fail('delays', `waited ${text(seen)}, expected ${text(delays.slice(0, total))}`, input);
          if (t.log.length > Math.min(n, total + 1)) x.fail('scheduled', `${t.log.length} attempts were scheduled, ${total} expected`, input);
          continue;
        }
        page();
        const hist = [], errs = [400, 404, 429, 500, 503, 'net'], h = http(() => next()), enabled = r.bool(0.85);
        let now = null;
        const next = () => { const a = now; return a === 'ok' ? { status: 200, body: '{}' } : a === 'net' ? new Error('net') : { status: a, body: '' }; };
        const client = new m.ExperimentClient('client-key-abcdef', { httpClient: h, retryFetchOnFailure: enabled, fetchOnStart: false, pollOnStart: false });
        const retryable = (a) => a === 'net' || a >= 500 || a === 429;
        let pending = 0; // attempts made in the background sequence, 0 when there is none
        for (let i = r.int(1, 8); i > 0; i--) {
          const op = r.weighted([[2, 'fetch'], [3, 'step']]);
          now = r.weighted([[2, () => r.pick(errs)], [1, () => 'ok']])();
          hist.push(`${op} ${now}`);
          const before = h.calls.length;
          if (op === 'fetch') {
            await client.fetch({ user_id: 'u' }); await settle();
            pending = enabled && now !== 'ok' && retryable(now) ? 1 : 0;
            if (h.calls.length !== before + 1) x.fail('requests', `a fetch sent ${h.calls.length - before} requests`, { hist });
          } else {
            const had = pending > 0, delay = Math.min(500 * Math.pow(1.5, pending - 1), 10000), e = t.q[0];
            if (had && (!e || Math.abs(e.ms - delay) > 1e-6)) { x.fail('delay', `retry ${pending} waits ${e && e.ms}, expected ${delay} (${hist.join(', ')})`, { hist }); break; }
            await t.step();
            if (h.calls.length - before !== (had ? 1 : 0)) { x.fail('retry', `${h.calls.length - before} retries where ${had ? 1 : 0} is due (${hist.join(', ')})`, { hist }); break; }
            if (had) pending = now === 'ok' || pending >= 8 ? 0 : pending + 1;
          }
          x.count(hist);
          if (t.q.length !== (pending ? 1 : 0)) { x.fail('pending', `${t.q.length} retries are pending, expected ${pending ? 1 : 0} (${hist.join(', ')}; retries ${enabled ? 'on' : 'off'})`, { hist, enabled }); break; }
        }
        // cancelled while an attempt is under way
        if (r.bool(0.2)) {
          t.q = []; let release = null, ran = 0;
          const k = r.int(0, 2), b = new m.Backoff(8, 1, 100, 2);
          void b.start(async () => { if (ran++ === k) await new Promise((f) => { release = f; }); throw new Error('x'); });
          await settle();
          for (let i = 0; i <= k; i++) await t.step();
          b.cancel(); release(); await settle();
          if (t.q.length) x.fail('cancelled', `an attempt is scheduled after cancellation during attempt ${k + 1}`, { k });
        }
        // two concurrent fetches fail, then one succeeds: nothing may be left
        if (r.bool(0.2)) {
          t.q = []; const fresh = new m.ExperimentClient('client-key-abcdef', { httpClient: h, fetchOnStart: false, pollOnStart: false });
          now = 500; await Promise.all([fresh.fetch({ user_id: 'u' }), fresh.fetch({ user_id: 'u' })]); await settle();
          now = 'ok'; await fresh.fetch({ user_id: 'u' }); await settle();
          if (t.q.length) x.fail('concurrent', 'retries of an earlier failed fetch go on after a successful fetch', {});
        }
      }
    } finally { t.restore(); page(); }
  },
  async B11(x) {
    const m = await load(), r = x.rng, F = ['user_id', 'device_id', 'country', 'version', 'language', 'cookie', 'library'];
    const user = () => { const u = {}; for (const f of r.subset(F.slice(0, 5), 0.4)) u[f] = r.pick(['p', 'q', '']); if (r.bool(0.2)) u.cookie = 'c'; if (r.bool(0.15)) u.library = 'lib'; if (r.bool(0.6)) u.user_properties = Object.fromEntries(r.subset(['a', 'b', 'c'], 0.5).map((k) => [k, r.pick([1, 'x', null])])); return u; };
    while (x.more()) {
      page();
      const prov = some(r, 0.7, user), integ = some(r, 0.7, user), expl = some(r, 0.85, user), h = http({ status: 200, body: '{}' });
      const kept = clone([prov, integ, expl]);
      const client = new m.ExperimentClient('client-key-abcdef', { httpClient: h, fetchOnStart: false, pollOnStart: false, retryFetchOnFailure: false, userProvider: prov && { getUser: () => prov } });
      if (integ) { client.addPlugin({ type: 'integration', getUser: () => integ, track: () => true }); }
      await client.fetch(expl);
      const input = { provider: kept[0], integration: kept[1], explicit: kept[2] };
      x.count(input);
      if (h.calls.length !== 1) { x.fail('request', `${h.calls.length} requests`, input); continue; }
      const got = decode(h.calls[0].headers['X-Amp-Exp-User']), want = { ...prov, ...integ, ...expl, user_properties: { ...prov?.user_properties, ...integ?.user_properties, ...expl?.user_properties } };
      delete want.cookie;
      if (!(want.library || [prov, integ, expl].some((u) => u && 'library' in u)) && !/^experiment-js-client\//.test(got.library)) x.fail('library', `library is ${got.library}`, input);
      if (!('library' in want)) delete got.library;
      if (!eq(got, clone(want))) x.fail('user', `sent ${text(got)}, expected ${text(want)}`, input);
      if (!eq(clone([prov, integ, expl]), kept)) x.fail('changed', 'a source of the user context was changed', input);
    }
    page();
  },
  async B12(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      page();
      const client = new m.ExperimentClient('client-key-abcdef', { fetchOnStart: false, pollOnStart: false, httpClient: http({ status: 200, body: '{}' }) });
      const u = { ...(r.bool() ? { user_id: 'u' } : {}), ...(r.bool() ? { device_id: 'd' } : {}), ...(r.bool(0.7) ? { user_properties: Object.fromEntries(r.subset(['a', 'b'], 0.5).map((k) => [k, r.int(0, 3)])) } : {}) }, kept = clone(u), viaFetch = r.bool(0.3);
      if (viaFetch) await client.fetch(u); else client.setUser(u);
      x.count({ u: kept, viaFetch });
      if (!eq(client.getUser(), kept)) x.fail('read back', `set ${text(kept)}, read ${text(client.getUser())}`, { u: kept });
      u.user_id = 'changed'; if (u.user_properties) u.user_properties.added = 1;
      if (!eq(client.getUser(), kept)) x.fail('kept', `changing what was passed in changed the user to ${text(client.getUser())}`, { u: kept });
      const g = client.getUser(); g.device_id = 'changed'; if (g.user_properties) g.user_properties.other = 2;
      if (!eq(client.getUser(), kept)) x.fail('returned', `changing what was returned changed the user to ${text(client.getUser())}`, { u: kept });
      client.setUser(r.pick([null, undefined]));
      if (client.getUser()) x.fail('cleared', `cleared user is ${text(client.getUser())}`, {});
    }
    page();
  },
  async B13(x) {
    const m = await load(), r = x.rng, t = timers(), none = [undefined, null];
    try {
      while (x.more()) {
        page(); t.intervals = []; t.q = [];
        const zone = r.pick([...none, 'US', 'us', 'EU', 'eu', 'Eu', 'other', '']), url = r.pick([...none, '', 'https://a.example.com']), furl = r.pick([...none, '', 'https://b.example.com']), ms = r.pick([...none, 0, 1, 59999, 60000, 60001, 300000, 1e6]);
        const debug = r.pick([...none, true, false]), level = r.pick([...none, 0, 1, 2, 3, 4, 5]), timeout = r.pick([...none, 1, 5000]), auto = r.pick([...none, true, false]), said = [];
        const lg = Object.fromEntries(['error', 'warn', 'info', 'debug', 'verbose'].map((k) => [k, () => said.push(k)])), h = http((u) => (u.includes('flags') ? { status: 200, body: '[]' } : { status: 404, body: '' }));
        const exposures = [], config = { serverZone: zone, serverUrl: url, flagsServerUrl: furl, flagConfigPollingIntervalMillis: ms, debug, logLevel: level, fetchTimeoutMillis: timeout, automaticExposureTracking: auto, loggerProvider: lg, httpClient: h, instanceName: r.pick([...none, 'inst']), fetchOnStart: r.pick([...none, true]), retryFetchOnFailure: false, initialVariants: { f: { key: 'on', value: 'on' } }, source: 'initialVariants', exposureTrackingProvider: { track: (e) => exposures.push(e) } };
        const client = new m.ExperimentClient('client-key-abcdef', config);
        await client.start({ user_id: 'u' });
        const eu = zone && zone.toLowerCase() === 'eu', input = { zone, url, furl, ms, debug, level, timeout, auto };
        x.count(input);
        const su = url || (eu ? 'https://api.lab.eu.amplitude.com' : 'https://api.lab.amplitude.com'), fu = furl || (eu ? 'https://flag.lab.eu.amplitude.com' : 'https://flag.lab.amplitude.com');
        const v = h.calls.find((c) => c.url.includes('vardata')), f = h.calls.find((c) => c.url.includes('/flags'));
        if (!v || !v.url.startsWith(su + '/')) x.fail('server', `variants are requested from ${v && v.url}, expected ${su}`, input);
        if (!f || !f.url.startsWith(fu + '/')) x.fail('flags server', `flags are requested from ${f && f.url}, expected ${fu}`, input);
        if (v && v.timeout !== (timeout ?? 10000)) x.fail('timeout', `timeout is ${v.timeout}`, input);
        const want = ms === null || ms === undefined ? 300000 : Math.max(ms, 60000), iv = t.intervals.map((i) => i.ms);
        if (!eq(iv, [want])) x.fail('poll', `polling every ${text(iv)} ms, expected ${want}`, input);
        client.stop();
        const lv = debug === true ? 4 : level ?? 1, bad = said.filter((k) => ({ error: 1, warn: 2, info: 3, debug: 4, verbose: 5 })[k] > lv);
        if (bad.length) x.fail('logs', `level ${lv} lets ${bad[0]} pass`, input);
        if (lv >= 1 && !said.includes('error')) x.fail('logs', `level ${lv}: the failed fetch is not logged`, input);
        if (lv >= 4 && !said.includes('debug')) x.fail('logs', `level ${lv}: no debug messages`, input);
        client.variant('f');
        if (exposures.length !== (auto === false ? 0 : 1)) x.fail('automatic exposure', `${exposures.length} exposures`, input);
      }
    } finally { t.restore(); page(); }
  },
  async B14(x) {
    const m = await load(), r = x.rng, S = ['error', 'warn', 'info', 'debug', 'verbose'];
    while (x.more()) {
      const level = r.int(0, 5), said = [], lg = new m.AmpLogger(Object.fromEntries(S.map((k) => [k, (...a) => said.push([k, a])])), level), s = r.pick(S), args = r.list(r.int(1, 3), () => r.pick(['a', 1, null, undefined, { b: 1 }]));
      lg[s](...args);
      const want = level >= S.indexOf(s) + 1;
      x.count({ level, s, args });
      if (said.length !== (want ? 1 : 0) || (want && (said[0][0] !== s || said[0][1].length !== args.length || said[0][1].some((a, i) => a !== args[i])))) x.fail('log', `${s} at level ${level}: ${text(said)}`, { level, s, args });
    }
  },
  async B15(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const href = r.pick([undefined, 'https://x.example.com/a?b=c#d']);
      page({ href });
      const ev = r.weighted([[8, () => ({ ...(r.bool(0.8) ? { key: r.pick(['on', '']) } : {}), ...(r.bool(0.8) ? { value: r.pick(['v', '', 0, 5, null, { a: 1 }]) } : {}), ...(r.bool() ? { payload: r.pick([{ a: 1 }, '', 0, 'p', false]) } : {}), ...(r.bool() ? { metadata: r.pick([{}, { experimentKey: 'e' }, { experimentKey: '' }, { a: 1 }]) } : {}) })], [1, () => undefined]])();
      const got = m.convertEvaluationVariantToVariant(clone(ev)), want = {};
      if (ev) { for (const k of ['key', 'value', 'payload', 'metadata']) if (ev[k]) want[k] = ev[k]; if (ev.metadata?.experimentKey) want.expKey = ev.metadata.experimentKey; }
      x.count({ ev });
      if (!eq(got, want)) x.fail('variant', `${text(ev)} converts to ${text(got)}, expected ${text(want)}`, { ev });
      const s = r.pick(['a', '', 'on']);
      if (!eq(m.convertVariant(s), { key: s, value: s })) x.fail('text', `text ${text(s)} converts to ${text(m.convertVariant(s))}`, { s });
      const types = r.subset(['org', 'team', 'empty'], 0.5), u = r.bool(0.1) ? undefined : { user_id: 'u', user_properties: { p: 1 }, ...(types.length || r.bool() ? { groups: Object.fromEntries(types.map((g) => [g, r.pick([[], ['x'], ['x', 'y'], ['']])])) } : {}), ...(r.bool(0.7) ? { group_properties: { org: { x: r.pick([{}, { a: 1 }]) }, team: { y: { b: 1 } } } } : {}) };
      const uk = clone(u), ctx = m.convertUserToContext(clone(u)), exp = {};
      if (uk) {
        exp.user = { ...uk };
        if (href) exp.page = { url: href };
        if (uk.groups) {
          const gs = {};
          for (const g of Object.keys(uk.groups)) { const n = uk.groups[g][0]; if (n) { const p = uk.group_properties?.[g]?.[n]; gs[g] = { group_name: n, ...(p && Object.keys(p).length ? { group_properties: p } : {}) }; } }
          if (Object.keys(gs).length) exp.groups = gs;
          delete exp.user.groups; delete exp.user.group_properties;
        }
      }
      x.count({ u: uk, href });
      if (!eq(ctx, exp)) x.fail('context', `${text(uk)} becomes ${text(ctx)}, expected ${text(exp)}`, { u: uk, href });
    }
    page();
  },
  async B16(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const status = r.weighted([[5, 200], [1, 201], [1, 204], [1, 301], [1, 400], [1, 500]]), base = r.pick(['https://a.example.com', 'http://localhost:8080/x']), calls = [];
      const user = { user_id: r.pick(['u', 'ü?>~', '日本']), user_properties: { a: r.pick([1, '??>>', '🙂']) } }, body = r.pick([{}, { f: { key: 'on', value: 'on' } }, { f: {}, g: { key: 'x' } }]);
      const cl = (b) => ({ request: async (q) => { calls.push(q); return { status, body: text(b) }; } });
      const o = some(r, 0.85, () => ({ ...(r.bool() ? { flagKeys: r.subset([...KEYS, 'ф', '??>', '~~'], 0.4) } : {}), ...(r.bool() ? { trackingOption: r.pick(['track', 'no-track', 'read-only']) } : {}), ...(r.bool() ? { exposureTrackingOption: 'track' } : {}), ...(r.bool() ? { evaluationMode: 'remote' } : {}), ...(r.bool() ? { deliveryMethod: r.pick(['feature', 'web']) } : {}), ...(r.bool() ? { timeoutMillis: 77 } : {}) }));
      let got, err;
      try { got = await new m.SdkEvaluationApi('key', base, cl(body)).getVariants(user, o); } catch (e) { err = e; }
      x.count({ o, status, user });
      const q = calls[0] || { headers: {}, requestUrl: base }, h = q.headers, input = { o, status, user }, H = { ...(o?.trackingOption ? { 'X-Amp-Exp-Track': o.trackingOption } : {}), ...(o?.exposureTrackingOption ? { 'X-Amp-Exp-Exposure-Track': o.exposureTrackingOption } : {}) };
      if (calls.length !== 1 || q.method !== 'GET' || q.timeoutMillis !== o?.timeoutMillis) x.fail('request', text(q), input);
      let du, dk; try { du = decode(h['X-Amp-Exp-User']); dk = h['X-Amp-Exp-Flag-Keys'] === undefined ? undefined : decode(h['X-Amp-Exp-Flag-Keys']); } catch (e) { x.fail('encoding', `${text(h)}`, input); }
      if (h.Authorization !== 'Api-Key key' || !eq(du, user) || !eq(dk, o?.flagKeys) || /[+/=]/.test(h['X-Amp-Exp-User'] + (h['X-Amp-Exp-Flag-Keys'] || '')) || h['X-Amp-Exp-Track'] !== H['X-Amp-Exp-Track'] || h['X-Amp-Exp-Exposure-Track'] !== H['X-Amp-Exp-Exposure-Track']) x.fail('headers', `${text(h)}`, input);
      const u = new URL(q.requestUrl);
      if (!q.requestUrl.startsWith(base + '/sdk/v2/vardata') || u.searchParams.get('eval_mode') !== (o?.evaluationMode ?? null) || u.searchParams.get('delivery_method') !== (o?.deliveryMethod ?? null)) x.fail('url', q.requestUrl, input);
      if (status === 200 ? !eq(got, body) : !err || err.statusCode !== status) x.fail('response', `status ${status}: ${err ? err.message : text(got)}`, input);
      // flags
      const flags = r.list(r.int(0, 4), (i) => ({ key: r.pick(KEYS), variants: {}, segments: [], metadata: { i } })), fo = some(r, 0.85, () => ({ ...(r.bool(0.7) ? { libraryName: 'lib' } : {}), ...(r.bool(0.7) ? { libraryVersion: '1' } : {}), ...(r.bool() ? { user } : {}), ...(r.bool() ? { deliveryMethod: 'web' } : {}), ...(r.bool() ? { timeoutMillis: 5 } : {}) }));
      calls.length = 0; got = err = undefined;
      try { got = await new m.SdkFlagApi('key', base, cl(flags)).getFlags(fo); } catch (e) { err = e; }
      const p = calls[0] || { headers: {} }, g = p.headers, fi = { fo, flags, status };
      let fu; try { fu = g['X-Amp-Exp-User'] === undefined ? undefined : decode(g['X-Amp-Exp-User']); } catch (e) { x.fail('encoding', text(g), fi); }
      if (calls.length !== 1 || g.Authorization !== 'Api-Key key' || g['X-Amp-Exp-Library'] !== (fo?.libraryName && fo?.libraryVersion ? 'lib/1' : undefined) || !eq(fu, fo?.user) || p.timeoutMillis !== fo?.timeoutMillis || p.requestUrl !== `${base}/sdk/v2/flags${fo?.deliveryMethod ? '?delivery_method=web' : ''}`) x.fail('flags request', text(p), fi);
      const want = Object.fromEntries(flags.map((f) => [f.key, f]));
      if (status === 200 ? !eq(got && Object.keys(got).sort(), Object.keys(want).sort()) || Object.entries(got).some(([k, v]) => v.key !== k || !flags.some((f) => eq(f, v))) : !err || !String(err.message).includes(String(status))) x.fail('flags response', `status ${status}: ${err ? err.message : text(got)}`, fi);
    }
  },
};
