// B01-B16: packages/experiment-browser (and the API clients of experiment-core)
const S = 'packages/experiment-browser/src/';
const CL = S + 'experimentClient.ts';
const LOG = S + 'logger/ampLogger.ts';
const CV = S + 'util/convert.ts';
const IM = S + 'integration/manager.ts';
const TR = S + 'util/userSessionExposureTracker.ts';
const AN = S + 'util/sessionAnalyticsProvider.ts';
const SEVERITIES = ['error', 'warn', 'info', 'debug', 'verbose'];

export function specVariant(v) {
  const e = v && v.metadata ? v.metadata['experimentKey'] : undefined;
  return !v ? {} : { ...(v.key ? { key: v.key } : {}), ...(v.value ? { value: v.value } : {}), ...(v.payload ? { payload: v.payload } : {}), ...(e ? { expKey: e } : {}), ...(v.metadata ? { metadata: v.metadata } : {}) };
}
export function without(u) { const r = { ...u }; delete r['groups']; delete r['group_properties']; return r; }
export const conv = (v) => (v === null || v === undefined ? {} : isStr(v) ? { key: v, value: v } : v);
export const isDefault = (v) => !!(v && as(v, 'Variant').metadata?.default);
export function empty(v) { return v === undefined || v === null || (isObj(v) && forallKeys(v, (k) => !present(v, k))); }
// the value a lookup yields when the lookup order reaches the fallbacks: [value, whether it stems from a real source, whether a default variant is behind it]
export function afterStored(self, key, fallback, initial, dflt) {
  const f = conv(self.config.fallbackVariant), d = dflt !== undefined;
  return fallback !== null && fallback !== undefined ? { v: conv(fallback), real: false, d }
    : initial && self.config.initialVariants[key] !== null && self.config.initialVariants[key] !== undefined ? { v: conv(self.config.initialVariants[key]), real: false, d }
    : !empty(f) ? { v: f, real: false, d } : { v: dflt, real: d, d };
}
export function localValue(self, key, fallback, e) {
  return e !== undefined && e !== null && !isDefault(e) ? { v: e, real: true, d: false } : afterStored(self, key, fallback, true, isDefault(e) ? e : undefined);
}
export function storedValue(self, key, fallback) {
  const s = self.variants.cache[key], i = self.config.initialVariants[key];
  return self.config.source === 'initialVariants' && i !== null && i !== undefined ? { v: conv(i), real: true, d: false }
    : s !== undefined && s !== null && !isDefault(s) ? { v: s, real: true, d: false } : afterStored(self, key, fallback, self.config.source === 'localStorage', isDefault(s) ? s : undefined);
}
export function lookup(self, key, fallback) {
  const flag = self.flags.cache[key], local = !!flag && flag.metadata?.evaluationMode === 'local';
  const e = flag ? self.evaluate([flag.key])[key] : undefined;
  const s = storedValue(self, key, fallback);
  return local || (s.v === undefined && flag) ? localValue(self, key, fallback, e) : s;
}
export function knownSource(s) { return realSource(s) || s === 'secondary-initial' || s === 'fallback-inline' || s === 'fallback-config'; }
export function realSource(s) { return s === 'storage' || s === 'initial' || s === 'secondary-storage' || s === 'local-evaluation'; }
export function asked(o, k) { return !o || !o.flagKeys || o.flagKeys.length === 0 || existsInt((j) => j >= 0 && j < o.flagKeys.length && o.flagKeys[j] === k); }
export function listed(l, k) { return existsInt((j) => j >= 0 && j < l.length && l[j] === k); }
export function asked0(o, cache) { return !o || !o.flagKeys || o.flagKeys.length === 0 ? {} : cache; }
export const calls = (trace) => trace.map((t) => t.call);
export function withoutCookie(u) { const r = { ...u }; delete r['cookie']; return r; }
export function converted(v) { return uninterp('fn_convertEvaluationVariantToVariant', 'Val', v); }
// the first initial flag with this key
export function initialFlag(list, key) { return list.find((f) => f.key === key); }
export function initialList(self) { return as(parsedJson(as(self.config.initialFlags, 'string')), 'EvaluationFlag[]'); }

export function added(list, k, n, cache, old) {
  return existsInt((j) => j >= 0 && j < n && list[j].key === k) ? existsInt((j) => j >= 0 && j < n && list[j].key === k && same(cache[k], list[j])) : same(cache[k], old[k]) && iff(present(cache, k), present(old, k));
}
const CA = S + 'storage/cache.ts';
// the variant that a stored value of any of the three formats stands for
export function storedVariant(v) {
  const o = as(v, 'Variant');
  const e = o.metadata && as(o.metadata, 'Record<string, unknown>')['experimentKey'] ? as(o.metadata, 'Record<string, unknown>')['experimentKey'] : o.expKey;
  const m = o.metadata && as(o.metadata, 'Record<string, unknown>')['experimentKey'] ? o.metadata : o.expKey ? { ...(o.metadata || {}), experimentKey: o.expKey } : o.metadata;
  return { ...(o.key ? { key: o.key } : o.value ? { key: o.value } : {}), ...(o.value ? { value: o.value } : {}), ...(m ? { metadata: m } : {}), ...(o.payload ? { payload: o.payload } : {}), ...(e ? { expKey: e } : {}) };
}

export const suffix = (d) => d.slice(d.length - 6);
const BO = S + 'util/backoff.ts';
export function sameVisitor(i, u) { return i.userId && u?.user_id ? i.userId === u.user_id : !i.userId && !u?.user_id ? i.deviceId === u?.device_id : false; }
export function recorded(self, old, user) { return !sameVisitor(old.identity, user) ? {} : self.isSessionStorageAvailable ? (old.text ? parsedJson(old.text) : {}) : old.memory; }
export function isWeb(e) { return e.metadata && e.metadata['deliveryMethod'] === 'web'; }

export function offered(t, e) { const a = as(t, '{ args: unknown[] }').args; return a.length === 1 && same(a[0], e); }
export function accepted(t) { return !!as(t, '{ result: unknown }').result; }

const API = 'packages/experiment-core/src/api/';
export function b64(t) { return uninterp('base64url', 'String', t); }
export function parameters(u) { return as(uninterp('qs_parse', 'Seq', uninterp('url_search', 'String', u)), 'string[][]'); }
export function urlPart(p, u) { return uninterp(p, 'String', u); }
const answer = (what) => what === 'self.httpClient.request';
export function flagList(trace) { return as(parsedJson(as(trace[0].result.body, 'string')), 'EvaluationFlag[]'); }
export const contracts = [
  // ---------------------------------------------------------------- B14
  ...SEVERITIES.map((name, i) => ({
    name: `log ${name}`, target: LOG + `#AmpLogger.${name}`, props: ['B14'],
    ensures: new Function('{ self, args, trace }', `return {
      'a message reaches the logger exactly when the level allows it, unchanged': same(trace.map((t) => [t.call, ...t.args]), self.logLevel >= ${i + 1} ? [['self.logger.${name}', args.message, ...args.optionalParams]] : []) };`),
  })),
  { name: 'a new logger', target: LOG + '#AmpLogger.constructor', props: ['B14'],
    ensures: ({ args, result }) => ({ 'keeps the logger and the level (errors only by default)': result.logger === args.logger && result.logLevel === (args.logLevel === undefined ? 1 : args.logLevel) }) },
  // ---------------------------------------------------------------- B12
  { name: 'setUser', target: CL + '#ExperimentClient.setUser', props: ['B12'], argTypes: { user: 'ExperimentUser | null | undefined' },
    ensures: ({ self, args }) => ({ 'equal data is kept, and nothing when there is no user': same(self.user, args.user ? args.user : null) }) },
  { name: 'the user that was set is a copy', target: CL + '#ExperimentClient.setUser', props: ['B12'], optional: ['self.user'],
    given: { user: 'ExperimentUser', props: 'Record<string, any>', k: 'string', v: 'string' },
    act: ({ self, args }) => {
      const given = { ...args.user, user_properties: { ...args.props } };
      self.setUser(given);
      const before = snap(self.user);
      given.user_properties[args.k] = args.v; given.user_id = args.v; delete given.device_id;
      return { before, after: snap(self.user) };
    },
    ensures: ({ args, result }) => ({ 'it holds what was set': same(result.before, { ...args.user, user_properties: args.props }), 'changing the object passed in changes nothing': same(result.before, result.after) }) },
  { name: 'the user that was set is a copy (no properties)', target: CL + '#ExperimentClient.setUser', props: ['B12'], optional: ['self.user'],
    given: { user: 'ExperimentUser', props: 'Record<string, any>', k: 'string', v: 'string' },
    act: ({ self, args }) => {
      const given = { ...args.user };
      delete given.user_properties;
      self.setUser(given);
      const before = snap(self.user), set = snap(given);
      given.user_id = args.v; given.user_properties = { ...args.props };
      return { before, set, after: snap(self.user) };
    },
    ensures: ({ result }) => ({ 'it holds what was set': same(result.before, result.set), 'changing the object passed in changes nothing': same(result.before, result.after) }) },
  { name: 'getUser', target: CL + '#ExperimentClient.getUser', props: ['B12'], optional: ['self.user'],
    snapshot: ({ self }) => ({ user: snap(self.user) }),
    ensures: ({ self, old, result }) => ({ 'equal data is returned': same(result, old.user), 'nothing changes': same(self.user, old.user) }) },
  { name: 'the user that is returned is a copy', target: CL + '#ExperimentClient.getUser', props: ['B12'],
    given: { k: 'string', v: 'string' }, requires: ({ self }) => ({ 'a user is set': !!self.user }),
    snapshot: ({ self }) => ({ user: snap(self.user) }),
    act: ({ self, args }) => {
      const got = self.getUser();
      got.user_id = args.v; delete got.device_id;
      if (got.user_properties) got.user_properties[args.k] = args.v;
    },
    ensures: ({ self, old }) => ({ 'changing it changes nothing': same(self.user, old.user) }) },
  // ---------------------------------------------------------------- B07
  { name: 'exposure tracker', target: TR + '#UserSessionExposureTracker.track', props: ['B07'], owned: ['self.tracked'],
    snapshot: ({ self }) => ({ tracked: snap(self.tracked), identity: snap(self.identity) }),
    ensures: ({ self, args, old, trace }) => {
      const kept = same(old.identity.userId, args.user?.user_id) && same(old.identity.deviceId, args.user?.device_id);
      const seen = kept && present(old.tracked, args.exposure.flag_key) && same(old.tracked[args.exposure.flag_key], args.exposure.variant);
      return {
        'forwarded exactly when not yet tracked with this variant for this identity': same(trace.map((t) => [t.call, ...t.args]), seen ? [] : [['self.exposureTrackingProvider.track', args.exposure]]),
        'the flag is remembered with this variant, others as before unless the identity changed': same(self.tracked, { ...(kept ? old.tracked : {}), [args.exposure.flag_key]: args.exposure.variant }),
        'the identity is remembered': same(self.identity, { userId: args.user?.user_id, deviceId: args.user?.device_id }),
      };
    } },
  { name: 'a new exposure tracker', target: TR + '#UserSessionExposureTracker.constructor', props: ['B07'],
    ensures: ({ args, result }) => ({ 'has tracked nothing': same(result.tracked, {}) && same(result.identity, {}) && result.exposureTrackingProvider === args.exposureTrackingProvider }) },
  ...['track', 'setUserProperty'].map((name) => ({
    name: 'legacy ' + name, target: AN + '#SessionAnalyticsProvider.' + name, props: ['B07'], owned: ['self.setProperties', 'self.unsetProperties'],
    requires: ({ self, args }) => ({ 'the variant has a value': isStr(args.event.variant.value), 'the provider handles properties': self.analyticsProvider.setUserProperty !== undefined }),
    snapshot: ({ self }) => ({ set: snap(self.setProperties), unset: snap(self.unsetProperties) }),
    ensures: new Function('{ self, args, old, trace }', `const e = args.event, seen = present(old.set, e.key) && old.set[e.key] === e.variant.value; return {
      'forwarded exactly when this value is not the one last set': same(trace.map((t) => [t.call, ...t.args]), seen ? [] : [['self.analyticsProvider.${name}', e]]),
      'what is remembered': ${name === 'track' ? `same(self.setProperties, { ...old.set, [e.key]: e.variant.value }) && (seen ? same(self.unsetProperties, old.unset) : !present(self.unsetProperties, e.key) && forallKeys(old.unset, (k) => implies(k !== e.key, () => same(self.unsetProperties[k], old.unset[k]))))` : `same(self.setProperties, old.set) && same(self.unsetProperties, old.unset)`} };`),
  })),
  { name: 'legacy unsetUserProperty', target: AN + '#SessionAnalyticsProvider.unsetUserProperty', props: ['B07'], owned: ['self.setProperties', 'self.unsetProperties'],
    given: { k: 'string' },
    requires: ({ self, args }) => ({ 'the provider handles properties': self.analyticsProvider.unsetUserProperty !== undefined, 'only true marks are kept': implies(present(self.unsetProperties, args.event.key), () => !!self.unsetProperties[args.event.key]) }),
    snapshot: ({ self }) => ({ set: snap(self.setProperties), unset: snap(self.unsetProperties) }),
    ensures: ({ self, args, old, trace }) => {
      const e = args.event, seen = present(old.unset, e.key);
      return {
        'forwarded exactly when it is not the last thing forwarded for the flag': same(trace.map((t) => [t.call, ...t.args]), seen ? [] : [['self.analyticsProvider.unsetUserProperty', e]]),
        'the unset is remembered and the value is not': present(self.unsetProperties, e.key) && !!self.unsetProperties[e.key] && (seen || !present(self.setProperties, e.key)),
        'other flags stay': implies(args.k !== e.key, () => same(self.setProperties[args.k], old.set[args.k]) && iff(present(self.setProperties, args.k), present(old.set, args.k)) && same(self.unsetProperties[args.k], old.unset[args.k]) && iff(present(self.unsetProperties, args.k), present(old.unset, args.k))),
      };
    } },
  // ---------------------------------------------------------------- B15
  { name: 'convertEvaluationVariantToVariant', target: CV + '#convertEvaluationVariantToVariant', props: ['B15'], opaque: true, fresh: true, resultType: 'Variant', argTypes: { evaluationVariant: 'EvaluationVariant | undefined | null' },
    ensures: ({ args, result }) => ({ 'exactly the truthy parts, and the experiment key of the metadata': same(result, specVariant(args.evaluationVariant)) }) },
  { name: 'convertVariant', target: CV + '#convertVariant', props: ['B15'], argTypes: { value: 'string | Variant | null | undefined' },
    ensures: ({ args, result }) => ({ 'text becomes key and value, a variant stays, nothing becomes an empty variant': same(result, args.value === null || args.value === undefined ? {} : isStr(args.value) ? { key: args.value, value: args.value } : args.value) }) },
  ...[true, false].map((page) => ({
    name: `convertUserToContext (${page ? 'with' : 'without'} a page)`, target: CV + '#convertUserToContext', props: ['B15'], env: { location: page },
    given: { user: 'ExperimentUser', k: 'string' }, overSource: true, noJoin: true,
    act: ({ args }) => convertUserToContext(as({ ...args.user }, 'ExperimentUser')), actIn: CV,
    ensures: new Function('{ args, env, result }', `const g = args.user.groups && args.user.groups[args.k]; const named = present(args.user.groups || {}, args.k) && g.length > 0 && !!g[0];
      const ps = named ? args.user.group_properties?.[args.k]?.[g[0]] : undefined; const groups = as(result.groups || {}, 'Record<string, unknown>');
      return {
        'the user without raw group fields': same(result.user, args.user.groups ? without(args.user) : args.user),
        'the page address': same(result.page, ${page ? '{ url: env.location.href }' : 'undefined'}),
        'a group for exactly the group types with a non-empty first name': iff(present(groups, args.k), named),
        'its name and non-empty properties': implies(named, () => same(groups[args.k], ps && Object.keys(ps).length > 0 ? { group_name: g[0], group_properties: ps } : { group_name: g[0] })),
        'nothing else': forallKeys(result, (k) => !present(result, k) || k === 'user' || k === 'groups'${page ? " || k === 'page'" : ''}) };`),
  })),
  { name: 'convertUserToContext (no user)', target: CV + '#convertUserToContext', props: ['B15'], argTypes: { user: 'undefined | null' },
    ensures: ({ result }) => ({ 'an empty context': same(result, {}) }) },
  // ---------------------------------------------------------------- B01, B06 (lookup and exposure)
  { name: 'evaluate', target: CL + '#ExperimentClient.evaluate', opaque: true, arity: 1, resultType: 'Record<string, Variant>', fresh: true, abstraction: true, why: 'local evaluation has its own contracts (what it yields: E properties, conversion: B15); here any record of variants, the same for the same flags' },
  { name: 'user context', target: CL + '#ExperimentClient.addContext', opaque: true, arity: 1, resultType: 'ExperimentUser', abstraction: true, why: 'what it yields is the subject of B11; here any user, the same for the same argument' },
  { name: 'expose', target: CL + '#ExperimentClient.exposureInternal', event: 'expose', abstraction: true, why: 'the exposure has its own contract (B06); here the call is recorded' },
  { name: 'legacy', target: CL + '#ExperimentClient.legacyExposureInternal', event: 'legacy', abstraction: true, why: 'the legacy receiver has its own contract (B07); here the call is recorded' },
  { name: 'session tracker', target: S + 'util/userSessionExposureTracker.ts#UserSessionExposureTracker.track', event: 'tracker.track', abstraction: true, why: 'its own contract is in B07; here the call is recorded' },
  { name: 'integration', target: S + 'integration/manager.ts#IntegrationManager.track', event: 'integration.track', abstraction: true, why: 'its own contract is in B08; here the call is recorded' },
  ...['localStorage', 'initialVariants'].flatMap((source) => [[true, 'with a fallback'], [false, 'without a fallback']].map(([fb, w]) => ({
  name: `lookup ${source} ${w}`, target: CL + '#ExperimentClient.variant', props: ['B01', 'B06'], uses: ['evaluate', 'expose'], 
    argTypes: { fallback: fb ? 'string | Variant' : 'null | undefined' },
    requires: new Function('{ self }', `return { 'an API key': self.apiKey !== '', 'the source': self.config.source === '${source}', 'initial variants': self.config.initialVariants !== undefined, 'no debug log': self.logger.logLevel < 4 }`),
    ensures: ({ self, args, result, trace }) => {
      const s = lookup(self, args.key, args.fallback);
      return { 'the first variant in the documented order': same(result, s.v === undefined ? {} : s.v),
        'an exposure exactly when configured': trace.length === (self.config.automaticExposureTracking ? 1 : 0),
        'of that variant and its source': implies(trace.length === 1, () => trace[0].args[0] === args.key && same(trace[0].args[1].variant, s.v) && iff(realSource(trace[0].args[1].source), s.real) && iff(trace[0].args[1].hasDefaultVariant, s.d)) };
    } }))),
  { name: 'exposure', target: CL + '#ExperimentClient.exposureInternal', props: ['B06'], uses: ['user context', 'legacy', 'session tracker', 'integration'],
    argTypes: { sourceVariant: '{ variant?: Variant; source?: VariantSource; hasDefaultVariant?: boolean }' },
    requires: ({ self, args }) => ({ 'not a web experiment': !self.isWebExperiment, 'a declared source': implies(args.sourceVariant.source !== undefined, () => knownSource(args.sourceVariant.source)) }),
    snapshot: ({ args }) => ({ sv: snap(args.sourceVariant) }),
    ensures: ({ self, args, old, trace }) => {
      const { variant, source, hasDefaultVariant } = old.sv, real = realSource(source), m = variant?.metadata;
      const enabled = m?.trackExposure === undefined || m?.trackExposure === null || !!m?.trackExposure;
      const key = real && !m?.default ? (variant?.key || variant?.value) : undefined;
      const e = { flag_key: args.key, ...(key ? { variant: key } : {}), ...(variant?.expKey ? { experiment_key: variant.expKey } : {}), ...(m ? { metadata: m } : {}) };
      const user = self.addContext(self.getUser());
      const sent = enabled && (real || !!hasDefaultVariant);
      const tracked = sent && !!self.userSessionExposureTracker, last = trace.length - 1;
      return { 'nothing when exposure tracking is disabled': implies(!enabled, trace.length === 0),
        'sent once to each receiver exactly when the variant counts': implies(enabled, () => same(trace.map((t) => t.call), ['legacy', ...(tracked ? ['tracker.track'] : []), ...(sent ? ['integration.track'] : [])])),
        'the legacy receiver gets the variant and source': implies(enabled, () => same(trace[0].args, [args.key, variant, source])),
        'the event': implies(enabled && sent, () => same(trace[last].args[0], e) && implies(tracked, () => same(trace[1].args[0], e))),
        'the user': implies(enabled && sent, () => same(trace[last].args[1], user) && implies(tracked, () => same(trace[1].args[1], user))),
        'the variant is not changed': same(args.sourceVariant, old.sv) };
    } },
  // ---------------------------------------------------------------- B02
  { name: 'empty key', target: CL + '#ExperimentClient.variant', props: ['B01'], uses: ['evaluate'], env: {location: true},
    requires: ({ self }) => ({ 'no API key': self.apiKey === '' }), argTypes: { fallback: 'string | Variant | null | undefined' },
    ensures: ({ result, trace }) => ({ 'empty': result.value === undefined && result.key === undefined && result.payload === undefined && result.metadata === undefined && result.expKey === undefined, 'no effects': same(trace, []) }) },
  { name: 'all', target: CL + '#ExperimentClient.all', props: ['B02'], uses: ['evaluate'], overSource: true,
    given: { k: 'string' },
    requires: ({ self }) => ({ 'initial variants': self.config.initialVariants !== undefined, 'an API key': self.apiKey !== '', 'the source': self.config.source === 'localStorage' || self.config.source === 'initialVariants'}),
    snapshot: ({ self }) => ({ stored: snap(self.variants.cache), initial: snap(self.config.initialVariants), flags: snap(self.flags.cache) }),
    act: ({ self }) => self.all(),
    ensures: ({ self, args, old, result }) => {
      const flag = old.flags[args.k], e = self.evaluate(), k = args.k;
      const local = !!flag && flag.metadata?.evaluationMode === 'local' && present(e, k);
      const [first, second] = self.config.source === 'localStorage' ? [old.stored, old.initial] : [old.initial, old.stored];
      return { 'the first layer that has the flag': local ? same(result[k], e[k]) : present(first, k) ? same(result[k], first[k]) : same(result[k], second[k]),
        'no other key': iff(present(result, k), local || present(first, k) || present(second, k)),
        'nothing changes': same(self.variants.cache, old.stored) && same(self.config.initialVariants, old.initial) && same(self.flags.cache, old.flags) };
    } },
  { name: 'all with an empty key', target: CL + '#ExperimentClient.all', props: ['B02'], uses: ['evaluate'],
    requires: ({ self }) => ({ 'no API key': self.apiKey === '' }),
    ensures: ({ result, trace }) => ({ 'nothing': same(result, {}) && same(trace, []) }) },
  // ---------------------------------------------------------------- B03
  { name: 'store variants', target: CL + '#ExperimentClient.storeVariants', props: ['B03'], filterFacts: true, owned: ['self.variants.cache'],
    given: { k: 'string', variants: 'Variants', options: 'FetchOptions | undefined' },
    argTypes: { options: 'FetchOptions | undefined' },
    requires: ({ self }) => ({ 'no debug log': self.logger.logLevel < 4 }),
    throwing: (what) => what.endsWith('storage.put'),
    act: ({ self, args }) => self.storeVariants(args.variants, args.options),
    snapshot: ({ self }) => ({ cache: snap(self.variants.cache) }),
    loops: [{ over: ({ args }) => Object.keys(args.variants),
      inv: ({ self, args, i, seq, vars, old }) => ({
        'a stored flag so far': same(self.variants.cache[args.k], existsInt((j) => j >= 0 && j < i && seq[j] === args.k) ? args.variants[args.k] : asked0(args.options, old.cache)[args.k]),
        'which flags so far': iff(present(self.variants.cache, args.k), existsInt((j) => j >= 0 && j < i && seq[j] === args.k) || present(asked0(args.options, old.cache), args.k)),
        'keys are text': forallInt((j) => implies(j >= 0 && j < vars.failedFlagKeys.length, () => isStr(vars.failedFlagKeys[j]))),
        'requested flags not yet stored': iff(listed(vars.failedFlagKeys, args.k), !!args.options && !!args.options.flagKeys && listed(args.options.flagKeys, args.k) && !existsInt((j) => j >= 0 && j < i && seq[j] === args.k)),
      }) }],
    ensures: ({ self, args, old, trace }) => ({
      'every fetched flag is a key': implies(present(args.variants, args.k), () => listed(Object.keys(args.variants), args.k)),
      'every key is a fetched flag': implies(listed(Object.keys(args.variants), args.k), present(args.variants, args.k)),
      'fetched flags are held': implies(present(args.variants, args.k), present(self.variants.cache, args.k)),
      'requested flags that are missing are not': implies(!present(args.variants, args.k) && asked(args.options, args.k), !present(self.variants.cache, args.k)),
      'other flags as before': implies(!present(args.variants, args.k) && !asked(args.options, args.k), iff(present(old.cache, args.k), present(self.variants.cache, args.k))),
      'exactly these flags are held': iff(present(self.variants.cache, args.k), present(args.variants, args.k) || (!asked(args.options, args.k) && present(old.cache, args.k))),
      'with the fetched value, or the old one': implies(present(self.variants.cache, args.k), () => same(self.variants.cache[args.k], present(args.variants, args.k) ? args.variants[args.k] : old.cache[args.k])),
      'persisted': trace.length === 1 && same(trace[0].args, [self.variants.namespace, JSON.stringify(self.variants.cache)]),
    }) },
  { name: 'ready', target: IM + '#IntegrationManager.ready', event: 'ready', abstraction: true, why: 'waits for the integration; recorded, assumed to touch nothing the caller reads' },
  { name: 'do fetch', target: CL + '#ExperimentClient.doFetch', props: ['B03', 'B11'], uses: ['user context', 'ready', 'convertEvaluationVariantToVariant'],
    given: { k: 'string', user: 'ExperimentUser', ms: 'number', options: 'GetVariantsOptions' }, throwing: (what) => what.endsWith('getVariants'),
    requires: ({ self }) => ({ 'no debug log': self.logger.logLevel < 4 }),
    act: ({ self, args }) => self.doFetch(args.user, args.ms, args.options),
    throws: ({ trace }) => trace[1].error !== undefined,
    ensures: ({ self, args, result, thrown, error, trace }) => ({
      'one request, after the integration is ready': same(calls(trace), ['ready', 'self.evaluationApi.getVariants']),
      'for the user in its context without cookies': same(trace[1].args[0], withoutCookie(self.addContext(args.user))),
      'with the options given': same(trace[1].args[1], { timeoutMillis: args.ms, ...args.options }),
      'fails exactly when the request does': iff(thrown, trace[1].error !== undefined), 'with its error': implies(thrown, () => error === trace[1].error),
      'the variants are the converted evaluations': implies(!thrown, () => iff(present(result, args.k), present(trace[1].result, args.k)) && implies(present(result, args.k), () => same(result[args.k], converted(trace[1].result[args.k])))),
    }) },
  { name: 'fetch events', target: CL + '#ExperimentClient.fetchInternal', props: ['B03', 'B10'], uses: ['store', 'start retries', 'stop retries', 'fetch', 'retryable'],
    requires: ({ self }) => ({ 'no debug log': self.logger.logLevel < 4 }), argTypes: { options: 'FetchOptions | undefined' }, throwing: (what) => what === 'fetch',
    throws: () => true,
    ensures: ({ self, args, result, thrown, error, trace }) => {
      const at = args.retry ? 1 : 0, f = trace[at], failed = thrown;
      return {
      'no request without an API key': iff(self.apiKey === '', trace.length === 0) && implies(self.apiKey === '', thrown),
      'pending retries are cancelled first': implies(self.apiKey !== '', () => iff(args.retry, trace[0].call === 'stop retries')),
      'then it fetches, stores what came, or retries exactly when enabled and retryable': implies(self.apiKey !== '', () => same(calls(trace), [...(args.retry ? ['stop retries'] : []), 'fetch', ...(!failed ? ['store'] : args.retry && self.shouldRetryFetch(error) ? ['start retries'] : [])])),
      'the failure is passed on': implies(self.apiKey !== '' && thrown, () => error === f.error),
      'what came is stored': implies(self.apiKey !== '' && !thrown, () => same(trace[at + 1].args, [f.result, args.options]) && same(result, f.result)),
      'a retry asks for the same': implies(self.apiKey !== '' && thrown && trace.length === at + 2, () => same(trace[at + 1].args, [args.user, args.options])),
      'the request': implies(self.apiKey !== '', () => same(f.args, [args.user, args.timeoutMillis, { trackingOption: self.fetchVariantsOptions.value?.trackingOption, ...args.options }])),
    } } },
  { name: 'fetch', target: CL + '#ExperimentClient.doFetch', event: 'fetch', havoc: true, abstraction: true, why: 'its own contract is do fetch; here the call is recorded with any result or failure' },
  { name: 'store', target: CL + '#ExperimentClient.storeVariants', event: 'store', abstraction: true, why: 'its own contract is store variants; here the call is recorded' },
  { name: 'start retries', target: CL + '#ExperimentClient.startRetries', event: 'start retries', abstraction: true, why: 'its own contract is retries; here the call is recorded' },
  { name: 'stop retries', target: CL + '#ExperimentClient.stopRetries', event: 'stop retries', abstraction: true, why: 'its own contract is stopping the retries; here the call is recorded' },
  { name: 'retryable', target: CL + '#ExperimentClient.shouldRetryFetch', opaque: 'Bool', abstraction: true, why: 'its own contract is which failures are retried; here any answer, the same for the same failure' },
  // ---------------------------------------------------------------- B04
  { name: 'merge', target: CL + '#ExperimentClient.mergeInitialFlagsWithStorage', event: 'merge', abstraction: true, why: 'its own contract is initial flags; here the call is recorded, clauses before it concern the state before it' },
  ...[false, true].map((web) => ({ name: `flag refresh${web ? ' (web)' : ''}`, target: CL + '#ExperimentClient.doFlags', props: ['B04'], uses: ['user context', 'ready', 'merge'], owned: ['self.flags.cache'],
    throwing: (what) => what.endsWith('getFlags') || what.endsWith('storage.put'), throws: true,
    requires: new Function('{ self }', `return { 'no debug log': self.logger.logLevel < 4, 'kind of client': self.isWebExperiment === ${web} }`),
    snapshot: ({ self }) => ({ flags: snap(self.flags.cache) }),
    ensures: new Function('{ self, args, old, thrown, error, trace }', `const r = trace[${+web}]; return {
       'one request': trace.length > ${+web} && r.call === 'self.flagApi.getFlags',
       'after a refresh exactly the flags of the server are held': implies(r.error === undefined, () => !thrown && same(self.flags.cache, r.result)),
       'they are persisted': implies(r.error === undefined, () => same(trace[${1 + web}].args, [self.flags.namespace, JSON.stringify(r.result)])),
       'before the initial flags are merged': implies(!thrown, () => same(calls(trace).slice(${+web}), ['self.flagApi.getFlags', 'self.flags.storage.put', 'merge'])),
       'a failed refresh leaves the flags': implies(r.error !== undefined, () => same(self.flags.cache, old.flags)),
       'the failure is passed on': implies(thrown, () => error === r.error && trace.length === ${1 + web}) };`) })),
  { name: 'initial flags', target: CL + '#ExperimentClient.mergeInitialFlagsWithStorage', props: ['B04'], owned: ['self.flags.cache'],
    given: { list: 'EvaluationFlag[]', k: 'string' }, 
    requires: ({ self, args }) => ({ 'the initial flags are a list of flags': isStr(self.config.initialFlags) && self.config.initialFlags !== '' && isJson(as(self.config.initialFlags, 'string')) && isArr(initialList(self)) && same(initialList(self), args.list) && forallInt((i) => implies(i >= 0 && i < args.list.length, () => isObj(args.list[i]) && isStr(args.list[i].key))) }),
    act: ({ self }) => self.mergeInitialFlagsWithStorage(),
    snapshot: ({ self }) => ({ flags: snap(self.flags.cache) }),
    loops: [{ over: ({ self }) => initialList(self), inv: ({ self, args, i, seq, old }) => ({
      'held flags stay': implies(!!old.flags[args.k], () => same(self.flags.cache[args.k], old.flags[args.k])),
      'an initial flag is added where none is held': implies(!old.flags[args.k], () => added(args.list, args.k, i, self.flags.cache, old.flags)) }) }],
    ensures: ({ self, args, old }) => ({
      'held flags stay': implies(!!old.flags[args.k], () => same(self.flags.cache[args.k], old.flags[args.k])),
      'an initial flag is added exactly where none is held': implies(!old.flags[args.k], () => added(args.list, args.k, args.list.length, self.flags.cache, old.flags)),
    }) },
  { name: 'no initial flags', target: CL + '#ExperimentClient.mergeInitialFlagsWithStorage', props: ['B04'], owned: ['self.flags.cache'],
    requires: ({ self }) => ({ 'none are configured': !self.config.initialFlags }), snapshot: ({ self }) => ({ flags: snap(self.flags.cache) }),
    ensures: ({ self, old }) => ({ 'nothing changes': same(self.flags.cache, old.flags) }) },
  // ---------------------------------------------------------------- B05
  { name: 'stored text', target: CA + '#transformVariantFromStorage', props: ['B05'], argTypes: { storageValue: 'string' },
    ensures: ({ args, result }) => ({ 'key and value': same(result, { key: args.storageValue, value: args.storageValue }) }) },
  ...[true, false].map((meta) => ({ name: `stored object with${meta ? '' : 'out'} metadata`, target: CA + '#transformVariantFromStorage', actIn: CA, props: ['B05'], given: { v: 'Variant', m: 'Record<string, unknown>' },
    act: new Function('{ args }', `const v = { ...args.v }; ${meta ? 'v.metadata = { ...args.m }' : 'delete v.metadata'}; return transformVariantFromStorage(v);`),
    ensures: new Function('{ args, result }', `return { 'the equivalent variant': same(result, storedVariant({ ...args.v, metadata: ${meta ? 'args.m' : 'undefined'} })) };`) })),
  { name: 'stored anything else', target: CA + '#transformVariantFromStorage', props: ['B05'], argTypes: { storageValue: 'number | boolean | undefined' },
    ensures: ({ result }) => ({ 'nothing': result === undefined }) },
  { name: 'persist entries', target: CA + '#LoadStoreCache.store', props: ['B05'], requires: ({ self }) => ({}), argTypes: { values: 'undefined' },
    ensures: ({ self, trace }) => ({ 'writes the entries under the namespace': same(trace.map((t) => [t.call, ...t.args]), [['self.storage.put', self.namespace, JSON.stringify(self.cache)]]) }) },
  { name: 'stored form', target: CA + '#transformVariantFromStorage', opaque: true, resultType: 'Variant | undefined', abstraction: true, why: 'its own contracts are stored text/object; here any variant or none, the same for the same entry' },
  { name: 'load', target: CA + '#LoadStoreCache.load', props: ['B05'], owned: ['self.cache'], optional: ['self.transformer'], given: { k: 'string' },
    requires: ({ self }) => ({ 'no transformer': self.transformer === undefined }),
    act: ({ self }) => self.load(),
    snapshot: ({ self }) => ({ cache: snap(self.cache) }),
    ensures: ({ self, args, old, trace }) => {
      const raw = trace[0].result;
      const all = isStr(raw) && isJson(raw) ? parsedJson(raw) : undefined;
      return { 'reads the namespace': same(trace.map((t) => [t.call, ...t.args]), [['self.storage.get', self.namespace]]),
        'unreadable content changes nothing': implies(isStr(raw) && !isJson(raw), () => same(self.cache, old.cache)),
        'the entries that can be read': implies(isStr(raw) && isJson(raw) && isObj(all), () => iff(present(self.cache, args.k), !!all[args.k]) && implies(!!all[args.k], () => same(self.cache[args.k], all[args.k]))) };
    } },
  { name: 'load variants', target: CA + '#getVariantStorage', actIn: CA, props: ['B05'], given: { storage: 'Storage', deployment: 'string', instance: 'string', k: 'string' }, uses: ['stored form'],
    act: ({ args }) => { const c = getVariantStorage(args.deployment, args.instance, args.storage); c.load(); return [c.cache, c.namespace]; },
    ensures: ({ result, args, trace }) => {
      const raw = trace[0].result;
      const all = isStr(raw) && isJson(raw) ? parsedJson(raw) : undefined;
      const v = all ? uninterp('fn_stored_form', 'Val', all[args.k]) : undefined;
      return { 'reads its namespace': same(trace.map((t) => [t.call, ...t.args]), [['storage.get', result[1]]]),
        'unreadable content changes nothing': implies(isStr(raw) && !isJson(raw), () => same(result[0], {})),
        'the entries in their current form': implies(isStr(raw) && isJson(raw) && isObj(all), () => iff(present(result[0], args.k), present(all, args.k) && !!v) && implies(present(all, args.k) && !!v, () => same(result[0][args.k], v))) };
    } },
  { name: 'round trip', target: CA + '#LoadStoreCache.store', actIn: CA, props: ['B05'], given: { storage: 'Storage', namespace: 'string', v: 'Record<string, EvaluationFlag>' , k: 'string'},
    requires: ({ args }) => ({ 'entries are JSON values': jsonValue(args.v) }),
    act: ({ args, trace }) => {
      const a = new LoadStoreCache(args.namespace, args.storage);
      a.putAll(args.v); a.store();
      const b = new LoadStoreCache(args.namespace, args.storage);
      b.load();
      return b.cache;
    },
    ensures: ({ result, args, trace }) => ({ 'what was stored is read from the same place': trace[0].args[0] === trace[1].args[0] && trace.length === 2,
       'and loads as the same entries': implies(same(trace[1].result, trace[0].args[1]), () => implies(!!args.v[args.k], () => same(result[args.k], args.v[args.k]))) }) },
  { name: 'storage keys', target: CA + '#getFlagStorage', actIn: CA, props: ['B05'], given: { storage: 'Storage', d1: 'string', d2: 'string', i1: 'string', i2: 'string' },
    requires: ({ args }) => ({ 'keys of at least six characters without a dash in the suffix': args.d1.length >= 6 && args.d2.length >= 6 && !suffix(args.d1).includes('-') && !suffix(args.d2).includes('-') }),
    act: ({ args }) => [getVariantStorage(args.d1, args.i1, args.storage).namespace, getFlagStorage(args.d1, args.i1, args.storage).namespace, getVariantsOptionsStorage(args.d1, args.i1, args.storage).namespace,
      getVariantStorage(args.d2, args.i2, args.storage).namespace, getFlagStorage(args.d2, args.i2, args.storage).namespace, getVariantsOptionsStorage(args.d2, args.i2, args.storage).namespace],
    ensures: ({ args, result }) => {
      const other = args.i1 !== args.i2 || suffix(args.d1) !== suffix(args.d2);
      return { 'variants': implies(other, result[0] !== result[3]), 'flags': implies(other, result[1] !== result[4]), 'options': implies(other, result[2] !== result[5]),
        'variants and flags': result[0] !== result[4], 'variants and options': result[0] !== result[5], 'flags and options': result[1] !== result[5] };
    } },
  // ---------------------------------------------------------------- B10
  { name: 'next attempt', target: BO + '#Backoff.backoff', event: 'attempt', abstraction: true, why: 'the same contract, for the following attempt' },
  { name: 'an attempt', target: BO + '#Backoff.backoff', props: ['B10'], uses: ['next attempt'], recursive: true,
    throwing: (what) => what === '?' || what === 'fn' || what==='args.fn', throws: true,
    after: ({ trace }) => { if (trace.length > 0) trace[0].args[0](); },
    snapshot: ({ self }) => ({ done: self.done }),
    ensures: ({ self, args, old, trace }) => ({
      'nothing is scheduled once cancelled': implies(old.done, trace.length === 0),
      'one timer with the delay': implies(!old.done, () => trace.length >= 2 && trace[0].call === 'setTimeout' && trace[0].args[1] === args.delay),
      'it runs the function once': implies(!old.done, () => same(trace[1].args, [])),
      'and on failure, while attempts remain, waits for the next one': implies(!old.done, () => iff(trace.length === 3, trace[1].error !== undefined && args.attempt + 1 < self.attempts) && trace.length <= 3),
      'with the grown delay up to the maximum': implies(!old.done && trace.length === 3, () => same(trace[2].args[0], args.fn) && trace[2].args[1] === args.attempt + 1 && trace[2].args[2] === (args.delay * self.scalar < self.max ? args.delay * self.scalar : self.max)),
    }) },
  { name: 'cancel', target: BO + '#Backoff.cancel', props: ['B10'],
    ensures: ({ self, trace }) => ({ 'is final and clears the timer': self.done === true && same(calls(trace), ['clearTimeout']) && same(trace[0].args, [self.timeoutHandle]) }) },
  { name: 'start', target: BO + '#Backoff.start', props: ['B10'], uses: ['next attempt'], throws: true,
    snapshot: ({ self }) => ({ started: self.started }),
    ensures: ({ self, args, old, trace, thrown }) => ({ 'the first attempt waits the minimum, once': iff(thrown, old.started) && (old.started ? trace.length === 0 : same(trace.map((t) => [t.call, ...t.args]), [['attempt', args.fn, 0, self.min]])), 'started': self.started }) },
  { name: 'which failures are retried', target: CL + '#ExperimentClient.shouldRetryFetch', props: ['B10'], actIn: CL, given: { status: 'number', text: 'string' },
    act: ({ self, args }) => [self.shouldRetryFetch(new FetchError(args.status, args.text)), self.shouldRetryFetch(new TimeoutError(args.text)), self.shouldRetryFetch(new Error(args.text))],
    ensures: ({ args, result }) => ({ 'all but client errors, and 429': iff(result[0], !(args.status >= 400 && args.status < 500) || args.status === 429), 'a timeout or another error': result[1] === true && result[2] === true }) },
  { name: 'fetch attempt', target: CL + '#ExperimentClient.fetchInternal', event: 'fetch attempt', abstraction: true, why: 'its own contract is fetch events; here the call is recorded' },
  { name: 'backoff start', target: BO + '#Backoff.start', event: 'backoff start', abstraction: true, why: 'its own contract is start; here the call is recorded' },
  { name: 'retries', target: CL + '#ExperimentClient.startRetries', props: ['B10'], uses: ['fetch attempt', 'backoff start', 'stop retries'],
    requires: ({ self }) => ({ 'no debug log': self.logger.logLevel < 4 }), argTypes: { options: 'FetchOptions | undefined' },
    after: ({ trace }) => { trace[1].args[0](); },
    ensures: ({ self, args, trace }) => ({ 'the earlier retries are stopped, then a backoff starts': same(trace.slice(0, 2).map((t) => t.call), ['stop retries', 'backoff start']),
      'it is new': !self.retriesBackoff.done && !self.retriesBackoff.started && self.retriesBackoff.attempts > 0,
      'each attempt fetches the same without starting retries of its own': trace.length === 3 && trace[2].call === 'fetch attempt' && same(trace[2].args[0], args.user) && trace[2].args[2] === false && same(trace[2].args[3], args.options) }) },
  { name: 'stopping the retries', target: CL + '#ExperimentClient.stopRetries', props: ['B10'],
    optional: ['self.retriesBackoff'],
    ensures: ({ self, trace }) => ({ 'cancels the backoff': implies(!!self.retriesBackoff, () => self.retriesBackoff.done) }) },
  // ---------------------------------------------------------------- B11
  { name: 'integration user', target: IM + '#IntegrationManager.getUser', event: 'integration.getUser', havoc: true, resultType: 'ExperimentUser', abstraction: true, why: 'its own contract is user of the integration; here any user' },
  ...[true, false].map((provided) => ({ name: `user context ${provided ? 'with' : 'without'} a provider`, target: CL + '#ExperimentClient.addContext', props: ['B11'], uses: ['integration user'], argTypes: { user: 'ExperimentUser | null | undefined' },
    given: { k: 'string', user: 'ExperimentUser | null | undefined' }, optional: ['self.userProvider'],
    requires: new Function('{ self }', `return { 'provider': ${provided ? '!!' : '!'}self.userProvider };`),
    act: ({ self, args }) => self.addContext(args.user),
    snapshot: ({ args }) => ({ user: snap(args.user) }),
    ensures: new Function('{ self, args, old, result, trace }', `
      const p = as(${provided ? 'trace[0].result' : 'undefined'} || {}, 'ExperimentUser'), g = as(trace[${+provided}].result || {}, 'ExperimentUser'), u = as(old.user || {}, 'ExperimentUser'), r = as(result, 'Record<string, unknown>');
      return { 'sources asked once': same(calls(trace), [${provided ? "'self.userProvider.getUser', " : ''}'integration.getUser']),
        'each field from the user, else the integration, else the provider': implies(args.k !== 'user_properties' && args.k !== 'library', () => same(r[args.k], present(u, args.k) ? u[args.k] : present(g, args.k) ? g[args.k] : p[args.k])),
        'no other field': implies(args.k !== 'user_properties' && args.k !== 'library', () => iff(present(r, args.k), present(u, args.k) || present(g, args.k) || present(p, args.k))),
        'properties likewise': same(result.user_properties, { ...(p.user_properties || {}), ...(g.user_properties || {}), ...(u.user_properties || {}) }),
        'the library is identified': present(u, 'library') ? same(r.library, u.library) : present(g, 'library') ? same(r.library, g.library) : present(p, 'library') ? same(r.library, p.library) : isStr(r.library) && as(r.library, 'string').startsWith('experiment-js-client/'),
        'the user is not changed': same(args.user, old.user) };`) })),
  { name: 'user sent', target: CL + '#ExperimentClient.cleanUserPropsForFetch', props: ['B11'],
    snapshot: ({ args }) => ({ user: snap(args.user) }),
    ensures: ({ args, old, result }) => ({ 'all but the cookie': forallKeys(old.user, (k) => k === 'cookie' ? !present(result, k) : same(result[k], old.user[k])) && forallKeys(result, (k) => implies(present(result, k), present(old.user, k))), 'the context is not changed': same(args.user, old.user) }) },
  { name: 'user of the integration', target: IM + '#IntegrationManager.getUser', props: ['B11'], optional: ['self.integration'],
    ensures: ({ self, result, trace }) => ({ 'asked when there is one, else empty': self.integration ? same(calls(trace), ['self.integration.getUser']) && same(result, trace[0].result) : same(result, {}) && trace.length === 0 }) },
  // ---------------------------------------------------------------- B13
  { name: 'defined options', target: S + 'util/index.ts#filterNullUndefined', props: ['B13'], given: { k: 'string', o: 'Record<string, unknown>' }, actIn: S + 'util/index.ts',
    overSource: true, act: ({ args }) => filterNullUndefined(args.o),
    ensures: ({ args, result }) => ({ 'exactly the defined ones': iff(present(result, args.k), present(args.o, args.k) && !(args.o[args.k] === null || args.o[args.k] === undefined)) && implies(present(result, args.k), () => same(result[args.k], args.o[args.k])) }) },
  { name: 'log level', target: CL + '#ExperimentClient.getLogLevel', props: ['B13'], argTypes: { config: 'ExperimentConfig' },
    ensures: ({ args, result }) => ({ 'debug, else the configured one, else errors only': result === (args.config.debug === true ? 4 : args.config.logLevel === undefined || args.config.logLevel === null ? 1 : args.config.logLevel) }) },
  { name: 'loading', target: S + 'storage/cache.ts#LoadStoreCache.load', event: 'load', abstraction: true, why: 'its own contract is load; here the call is recorded' },
  { name: 'loading options', target: S + 'storage/cache.ts#SingleValueStoreCache.load', event: 'load', abstraction: true, why: 'reads the stored fetch options; here the call is recorded' },
  { name: 'configuration', target: CL + '#ExperimentClient.constructor', props: ['B13'], uses: ['loading', 'loading options', 'merge'], actIn: CL,
    given: { key: 'string', url: 'string | null | undefined', zone: 'string | null | undefined', flagsUrl: 'string | null | undefined', ms: 'number | null | undefined', timeout: 'number | null | undefined' },
    env: { local: true, session: true },
    act: ({ args }) => { const c = new ExperimentClient(args.key, { serverUrl: args.url, serverZone: args.zone, flagsServerUrl: args.flagsUrl, flagConfigPollingIntervalMillis: args.ms, fetchTimeoutMillis: args.timeout }); return c.config; },
    ensures: ({ args, result: r }) => ({
       'timeout': r.fetchTimeoutMillis === (args.timeout === null || args.timeout === undefined ? 10000 : args.timeout),
       'poll': r.flagConfigPollingIntervalMillis === (args.ms === null || args.ms === undefined ? 300000 : args.ms < 60000 ? 60000 : args.ms),
       'server': r.serverUrl === (args.url ? args.url : args.zone?.toLowerCase() === 'eu' ? 'https://api.lab.eu.amplitude.com' : 'https://api.lab.amplitude.com'),
       'flags server': r.flagsServerUrl === (args.flagsUrl ? args.flagsUrl : args.zone?.toLowerCase() === 'eu' ? 'https://flag.lab.eu.amplitude.com' : 'https://flag.lab.amplitude.com'),
    }) },
  // ---------------------------------------------------------------- B08
  ...[['', true, ''], [' (no session storage)', true, '!'], [' (full session storage)', 'full', '']].map(([w, session, not]) => ({ name: 'record exposure' + w, target: IM + '#SessionDedupeCache.shouldTrack', props: ['B08'], owned: ['self.inMemoryCache', 'self.identity'], env: { session }, parsedAs: 'Record<string, string | null>',
    act: ({ self, args }) => self.shouldTrack(args.exposure, args.user), given: { exposure: 'Exposure', user: 'ExperimentUser | undefined' },
    requires: new Function('{ self, env }', `const t = env.session[self.storageKey]; return { 'availability': ${not}self.isSessionStorageAvailable, 'the stored records are an object': !t || (isJson(as(t, 'string')) && isObj(parsedJson(as(t, 'string')))) };`),
    snapshot: ({ self, env }) => ({ memory: snap(self.inMemoryCache), identity: snap(self.identity), text: as(env.session[self.storageKey], 'string | undefined'), stored: snap(env.session) }),
    ensures: new Function('{ self, args, old, env, result }', `
      const e = args.exposure, v = e.variant ?? null;
      const before = !sameVisitor(old.identity, args.user) ? {} : ${not ? 'old.memory' : "old.text ? as(parsedJson(old.text), 'Record<string, unknown>') : {}"};
      const after = { ...before, [e.flag_key]: v };
      return { 'sent exactly when not recorded for this visitor with this variant': iff(result, isWeb(e) || !present(before, e.flag_key) || !same(before[e.flag_key] ?? null, v)),
        'recorded': implies(!isWeb(e), () => present(self.inMemoryCache, e.flag_key) && same(self.inMemoryCache[e.flag_key] ?? null, v)),
        'memory': implies(!isWeb(e) && result, () => same(self.inMemoryCache, after)),
        'the visitor is remembered': implies(!isWeb(e), () => sameVisitor(self.identity, args.user)),
        'persisted': ${not || session === 'full' ? 'true' : 'implies(!isWeb(e), () => same(env.session[self.storageKey], JSON.stringify(self.inMemoryCache)))'},
        'kept in memory only once the storage fails': ${not ? '!self.isSessionStorageAvailable && same(env.session[self.storageKey], old.stored[self.storageKey])' : session === 'full' ? 'implies(!isWeb(e), () => !self.isSessionStorageAvailable || same(env.session[self.storageKey], JSON.stringify(self.inMemoryCache)))' : 'self.isSessionStorageAvailable'},
        'nothing else is stored': forallKeys(env.session, (k) => implies(k !== self.storageKey, () => same(env.session[k], old.stored[k]) && iff(present(env.session, k), present(old.stored, k)))),
        'a web impression changes nothing': implies(isWeb(e), () => same(env.session, old.stored) && same(self.inMemoryCache, old.memory) && same(self.identity, old.identity)) };`) })),
  // ---------------------------------------------------------------- B09
  ...[false, true].map((polled) => ({ name: 'offer events' + (polled ? ' (polled)' : ''), target: IM + '#PersistentTrackingQueue.flush', props: ['B09'], owned: ['self.inMemoryQueue'], throwing: (what) => what === 'self.tracker',
    requires: new Function('{ self }', `return { 'a tracker is set': !!self.tracker, 'the interval': ${polled ? '!!' : '!'}self.poller };`),
    snapshot: ({ self }) => ({ queue: snap(self.inMemoryQueue) }),
    loops: [{ inv: ({ vars, old, trace }) => ({
      'within the queue': vars.i >= 0 && vars.i <= old.queue.length,
      'one offer per event': trace.length === vars.i,
      'in order': forallInt((j) => implies(j >= 0 && j < vars.i, () => offered(trace[j], old.queue[j]))),
      'all accepted': forallInt((j) => implies(j >= 0 && j < vars.i, () => accepted(trace[j]))) }) }],
    ensures: new Function('{ self, old, trace }', `
      const done = old.queue.length > 0 && self.inMemoryQueue.length === 0, n = ${polled ? 'done ? trace.length - 1 : trace.length' : 'trace.length'};
      const last = n > 0 && accepted(trace[n - 1]), a = n === 0 ? 0 : last ? n : n - 1;
      return {
      'events are offered from the head, in order, once': n >= 0 && n <= old.queue.length && forallInt((j) => implies(j >= 0 && j < n, () => offered(trace[j], old.queue[j]))),
      'until one is refused': forallInt((j) => implies(j >= 0 && j < n - 1, () => accepted(trace[j]))) && (a === old.queue.length || (n > 0 && !last)),
      'the refused one and those behind it remain': same(self.inMemoryQueue, old.queue.slice(a)),
      ${polled ? "'the interval ends when nothing remains': implies(done, () => as(trace[n], '{ call: string }').call === 'clearInterval') && (done || !!self.poller)" : "'the tracker stays': !!self.tracker"} };`) })),
  { name: 'nothing to offer to', target: IM + '#PersistentTrackingQueue.flush', props: ['B09'], owned: ['self.inMemoryQueue'], optional: ['self.tracker'],
    requires: ({ self }) => ({ 'no tracker': !self.tracker }), snapshot: ({ self }) => ({ queue: snap(self.inMemoryQueue) }),
    ensures: ({ self, old, trace }) => ({ 'everything remains': same(self.inMemoryQueue, old.queue) && trace.length === 0 }) },
  { name: 'store queue', target: IM + '#PersistentTrackingQueue.storeQueue', props: ['B09'], owned: ['self.inMemoryQueue'], env: { local: 'full' },
    requires: ({ self }) => ({ 'a cap': self.maxQueueSize >= 0 && Number.isInteger(self.maxQueueSize) }),
    snapshot: ({ self, env }) => ({ queue: snap(self.inMemoryQueue), local: snap(env.local), available: self.isLocalStorageAvailable }),
    ensures: ({ self, env, old }) => {
      const n = old.queue.length, kept = n > self.maxQueueSize ? old.queue.slice(n - self.maxQueueSize) : old.queue, k = self.storageKey;
      return { 'what remains is kept, without the oldest beyond the cap': implies(old.available, () => same(self.inMemoryQueue, kept)),
        'and persisted, or in memory only from then on': implies(old.available, () => self.isLocalStorageAvailable ? same(env.local[k], JSON.stringify(kept)) : !present(env.local, k)),
        'without storage it is kept': implies(!old.available, () => !self.isLocalStorageAvailable && same(self.inMemoryQueue, old.queue) && same(env.local[k], old.local[k])),
        'no other entry changes': forallKeys(env.local, (key) => implies(key !== k, () => same(env.local[key], old.local[key]))) };
    } },
  { name: 'load queue', target: IM + '#PersistentTrackingQueue.loadQueue', props: ['B09'], owned: ['self.inMemoryQueue'], env: { local: true }, parsedAs: 'ExperimentEvent[]',
    requires: ({ self, env }) => ({ 'the stored queue is a list': !env.local[self.storageKey] || (isJson(as(env.local[self.storageKey], 'string')) && isArr(parsedJson(as(env.local[self.storageKey], 'string')))) }),
    snapshot: ({ self, env }) => ({ queue: snap(self.inMemoryQueue), text: as(env.local[self.storageKey], 'string | undefined') }),
    ensures: ({ self, old }) => ({ 'the stored queue, or none': implies(self.isLocalStorageAvailable, () => same(self.inMemoryQueue, old.text ? parsedJson(old.text) : [])), 'without storage it stays': implies(!self.isLocalStorageAvailable, () => same(self.inMemoryQueue, old.queue)) }) },
  { name: 'offering', target: IM + '#PersistentTrackingQueue.flush', event: 'offer', abstraction: true, why: 'its own contract is offer events; here the call is recorded' },
  { name: 'queue loading', target: IM + '#PersistentTrackingQueue.loadQueue', event: 'load', abstraction: true, why: 'its own contract is load queue; here the call is recorded' },
  { name: 'queue storing', target: IM + '#PersistentTrackingQueue.storeQueue', event: 'store', abstraction: true, why: 'its own contract is store queue; here the call is recorded' },
  { name: 'push event', target: IM + '#PersistentTrackingQueue.push', props: ['B09'], owned: ['self.inMemoryQueue'], uses: ['offering', 'queue loading', 'queue storing'],
    snapshot: ({ self }) => ({ queue: snap(self.inMemoryQueue) }),
    ensures: ({ self, args, old, trace }) => ({ 'loaded, then offered with the event at the end, then stored': same(calls(trace), ['load', 'offer', 'store']), 'the event goes to the end': same(self.inMemoryQueue, [...old.queue, args.event]) }) },
  { name: 'set tracker', target: IM + '#PersistentTrackingQueue.setTracker', props: ['B09'], optional: ['self.tracker'], uses: ['offering', 'queue loading', 'queue storing'],
    after: ({ trace }) => { trace[0].args[0](); },
    ensures: ({ self, args, trace }) => ({ 'the queue is offered at once and every second': same(calls(trace), ['setInterval', 'load', 'offer', 'store', 'load', 'offer', 'store']) && trace[0].args[1] === 1000, 'to it': self.tracker === args.tracker }) },
  { name: 'recorded', target: IM + '#SessionDedupeCache.shouldTrack', opaque: 'Bool', arity: 2, abstraction: true, why: 'its own contract is record exposure; here any answer' },
  { name: 'pushing', target: IM + '#PersistentTrackingQueue.push', event: 'push', abstraction: true, why: 'its own contract is push event; here the call is recorded' },
  { name: 'track exposure', target: IM + '#IntegrationManager.track', props: ['B08', 'B09'], uses: ['recorded', 'pushing'],
    ensures: ({ self, args, trace }) => {
      const m = args.exposure.metadata, type = m && m['exposureEvent'] ? m['exposureEvent'] : m && m['deliveryMethod'] === 'web' ? '$impression' : '$exposure';
      return { 'queued exactly when it is new, under its event type': same(trace.map((t) => [t.call, ...t.args]), self.cache.shouldTrack(args.exposure, args.user) ? [['push', { eventType: type, eventProperties: args.exposure }]] : []) };
    } },
  // ---------------------------------------------------------------- B16
  { name: 'variants request', target: API + 'evaluation-api.ts#SdkEvaluationApi.getVariants', props: ['B16'], throwing: answer, throws: true,
    argTypes: { user: 'Record<string, unknown>', options: 'GetVariantsOptions | undefined' },
    requires: ({ self, args }) => ({ 'the server URL is one': !uninterp('url_bad', 'Bool', `${self.serverUrl}/sdk/v2/vardata?v=0`) }),
    ensures: ({ self, args, result, thrown, error, trace }) => {
      const o = args.options, base = `${self.serverUrl}/sdk/v2/vardata?v=0`, r = trace[0].args[0], u = r.requestUrl;
      return {
        'one request': same(calls(trace), ['self.httpClient.request']) && r.method === 'GET' && same(r.timeoutMillis, o?.timeoutMillis),
        'with the key, the user and the options given': same(r.headers, { Authorization: `Api-Key ${self.deploymentKey}`, 'X-Amp-Exp-User': b64(JSON.stringify(args.user)), ...(o?.flagKeys ? { 'X-Amp-Exp-Flag-Keys': b64(JSON.stringify(o.flagKeys)) } : {}), ...(o?.trackingOption ? { 'X-Amp-Exp-Track': o.trackingOption } : {}), ...(o?.exposureTrackingOption ? { 'X-Amp-Exp-Exposure-Track': o.exposureTrackingOption } : {}) }),
        'to the server': urlPart('url_rest', u) === urlPart('url_rest', base) && urlPart('url_hash', u) === urlPart('url_hash', base),
        'with the mode and delivery given': same(parameters(u), [...parameters(base), ...(o?.evaluationMode ? [['eval_mode', o.evaluationMode]] : []), ...(o?.deliveryMethod ? [['delivery_method', o.deliveryMethod]] : [])]),
        'another status is an error that carries it': implies(trace[0].error === undefined && trace[0].result.status !== 200, () => thrown && error.statusCode === trace[0].result.status),
        'the body is the result': implies(!thrown, () => trace[0].result.status === 200 && same(result, parsedJson(trace[0].result.body))),
        'fails only so': implies(thrown && trace[0].error === undefined && trace[0].result.status === 200, () => !isJson(trace[0].result.body)),
      };
    } },
  { name: 'flags request', target: API + 'flag-api.ts#SdkFlagApi.getFlags', props: ['B16'], throwing: answer, throws: true, keepArrays: true, specPrune: true, parsedAs: 'EvaluationFlag[]',
    given: { k: 'string', options: 'GetFlagsOptions | undefined' }, act: ({ self, args }) => self.getFlags(args.options),
    loops: [{ over: ({ trace }) => flagList(trace), inv: ({ args, i, seq, st }) => ({
      'flags so far': iff(present(st[0], args.k), existsInt((j) => j >= 0 && j < i && seq[j].key === args.k)),
      'each one of them': implies(present(st[0], args.k), () => existsInt((j) => j >= 0 && j < i && seq[j].key === args.k && same(st[0][args.k], seq[j]))) }) }],
    ensures: ({ self, args, result, thrown, error, trace }) => {
      const o = args.options, r = trace[0].args[0], list = flagList(trace);
      return {
        'one request': same(calls(trace), ['self.httpClient.request']) && r.method === 'GET' && same(r.timeoutMillis, o?.timeoutMillis),
        'with the key, the library and the user given': same(r.headers, { Authorization: `Api-Key ${self.deploymentKey}`, ...(o?.libraryName && o?.libraryVersion ? { 'X-Amp-Exp-Library': `${o.libraryName}/${o.libraryVersion}` } : {}), ...(o?.user ? { 'X-Amp-Exp-User': b64(JSON.stringify(o.user)) } : {}) }),
        'to the server': r.requestUrl === (o?.deliveryMethod ? `${self.serverUrl}/sdk/v2/flags?delivery_method=${o.deliveryMethod}` : `${self.serverUrl}/sdk/v2/flags`),
        'another status is an error that carries it': implies(trace[0].error === undefined && trace[0].result.status !== 200, () => thrown && error.message === `Flags error response: status=${trace[0].result.status}`),
        'only a list is taken': implies(!thrown, isArr(list)),
        'the keys of the flags': implies(!thrown && isArr(list), () => iff(present(result, args.k), existsInt((j) => j >= 0 && j < list.length && list[j].key === args.k))),
        'the flags of the body': implies(!thrown && isArr(list), () => implies(present(result, args.k), () => existsInt((j) => j >= 0 && j < list.length && list[j].key === args.k && same(result[args.k], list[j])))),
      };
    } },
];
