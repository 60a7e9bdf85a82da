const T = 'packages/experiment-tag/src/';
const UR = T + 'util/url.ts';
const CM = T + 'consent/consent-manager.ts';
const MB = T + 'subscriptions/message-bus.ts';
const PO = T + 'util/page-object.ts';
const EV = T + 'behavioral-targeting/evaluator.ts';
const TK = T + 'util/triggers/trigger-state-keys.ts';
const GM = T + 'util/grant-flush-merge.ts';
const SM = T + 'behavioral-targeting/session-manager.ts';
const ST = T + 'util/storage.ts';
const CG = T + 'consent/consent-gate.ts';
const setup = (type) => ({ props: ['T02'], env: { local: true, session: true }, given: { storageType: `'${type}'`, key: 'string', value: 'unknown', key2: 'string', slot2: 'string' } });
const snapshot = ({ args, env }) => ({ local: snap(env.local), session: snap(env.session), held: held(args.key), waiting: waiting(args.key), mine: mod('pendingWrites').get(slot(args))?.json, other: mod('pendingWrites').get(args.slot2)?.json });
const CS = T + 'consent/consent-cookie-storage.ts';
const IB = T + 'consent/consent-impression-buffer.ts';
const cs = { props: ['T04'], uses: ['arm flush'], snapshot: ({ self, args }) => ({ withheld: withheld(), pending: pending(), mine: self.buffered.get(args.key), other: self.buffered.get(args.other) }) };
const CK = T + 'util/cookie.ts';
const CD = T + 'consent/clear-data.ts';
const EX = T + 'experiment.ts';
const EXK = EX + '#DefaultWebExperimentClient.';
const ES = T + 'behavioral-targeting/event-storage.ts';
const ESK = ES + '#EventStorageManager.';

export function params(u) { return as(uninterp('qs_parse', 'Seq', uninterp('url_search', 'String', u)), 'string[][]'); }
export function moved(self, status, old) { return status !== old.status && status !== 'pending'; }
export function toldFirst(trace, n, old, status) { return trace.length === n && forallInt((j) => implies(j >= 0 && j < n, () => trace[j].fn === old.listeners[j] && trace[j].args[0] === status && trace[j].args[1] === old.status)); }
export function groupThere(self, type) { return iff(self.messageToSubscriberGroup.has(type), !!self.messageToSubscriberGroup.get(type)); }
export function subscribersOf(self, type) { const g = self.messageToSubscriberGroup.get(type); return as(g ? g.subscribers : [], 'any[]'); }
export function calledFirst(trace, n, old, args) { const p = args.payload || {}; return trace.length === n && forallInt((j) => implies(j >= 0 && j < n, () => trace[j].fn === old.subs[j]['callback'] && same(trace[j].args[0], p))); }
export function compares(op, n, t) { return op === 'greater or equal' ? n >= t : op === 'greater' ? n > t : op === 'is' ? n === t : op === 'less' ? n < t : op === 'less or equal' ? n <= t : op === 'is not' ? n !== t : false; }
export function passes(event, filters) { return !filters || filters.length === 0 || uninterp('fn_conditions_hold', 'Bool', { context: event.properties, result: {} }, [filters]); }
export function readable(text) { return isJson(text) && isObj(parsedJson(text)); }
export function withDevice(pendingJson, deviceJson, fields) {
  const pending = as(parsedJson(pendingJson), 'Record<string, unknown>'), device = as(parsedJson(as(deviceJson, 'string')), 'Record<string, unknown>');
  const pick = (k) => (fields.includes(k) && device[k] !== undefined ? { [k]: device[k] } : {});
  return JSON.stringify({ ...pending, ...pick('first_seen'), ...pick('web_exp_id'), ...pick('web_exp_id_v2'), ...pick('device_id') });
}
export function sameInner(a, b) { return Object.keys(a).length === Object.keys(b).length && Object.keys(a).every((q) => !!b[q] && a[q].id === b[q].id); }
export function samePages(a, b) { return Object.keys(a).length === Object.keys(b).length && Object.keys(a).every((k) => !!b[k] && sameInner(a[k], b[k])); }
export function gate() { return { required: mod('consentGate').required, status: mod('consentGate').manager.currentStatus }; }
export function held(key) { return mod('consentGate').required && mod('consentGate').manager.currentStatus !== 'granted' && key !== 'amp-preview-mode' && key !== 'visual-editor-state'; }
export function waiting(key) { return held(key) && mod('consentGate').manager.currentStatus === 'pending'; }
export function slot(args) { return as(`${args.storageType}:${args.key}`, 'string'); }
export function boxOf(env, type) { return type === 'localStorage' ? env.local : env.session; }
export function storedValue(text) { return text !== undefined && text !== '' && isJson(as(text, 'string')) ? parsedJson(as(text, 'string')) : null; }
export function storageSame(old, env) { return same(env.local, old.local) && same(env.session, old.session); }
export function buffer(s) { return mod('pendingWrites').get(s)?.json; }
export function flushed(trace, n, list) { const entries = as(list, '{ storageType: string; key: string; json: string }[]'); return trace.length === n + 1 && trace[0].call === 'decision' && forallInt((j) => implies(j >= 0 && j < n, () => trace[j + 1].call === 'write' && same(trace[j + 1].args, [entries[j].storageType, entries[j].key, uninterp('fn_grant_merge', 'String', entries[j].storageType, entries[j].key, entries[j].json)]))); }
export function stamped(e, was) { return was.eventProperties?.time !== undefined ? same(e, was) : isNum(e.eventProperties?.time) && same({ ...e, eventProperties: 0 }, { ...was, eventProperties: 0 }) && same({ ...as(e.eventProperties, 'Record<string, unknown>'), time: 0 }, { ...as(was.eventProperties || {}, 'Record<string, unknown>'), time: 0 }); }
export function readFirst(trace, n, entries) { const es = as(entries, 'any[]'); return forallInt((j) => implies(j >= 0 && j < n, () => trace[1 + 2 * j].call === 'self.delegate.get' && trace[1 + 2 * j].args[0] === es[j][0])); }
export function writtenThen(trace, n, entries) { const es = as(entries, 'any[]'); return forallInt((j) => implies(j >= 0 && j < n, () => trace[2 + 2 * j].call === 'self.delegate.set' && trace[2 + 2 * j].args[0] === es[j][0])); }
export function withheld() { return mod('isConsentWithheld')(); }
export function pending() { return mod('isConsentPending')(); }
export function callsOf(trace) { return trace.map((t) => t.call); }
export function active(state, now, timeout) { return !!state && now - state.lastEventTime <= timeout; }
export function startsNow(st) { const s = as(st, '{ sessionId: string; sessionStartTime: number; lastEventTime: number }'); return s.sessionStartTime === Date.now() && s.lastEventTime === Date.now() && s.sessionId.startsWith(`${Date.now()}-`); }
export function bad(u) { return uninterp('url_bad', 'Bool', u); }
export function rest(u) { return uninterp('url_rest', 'String', u); }
export function search(u) { return uninterp('url_search', 'String', u); }
export function hash(u) { return uninterp('url_hash', 'String', u); }
export function first(u, key) { const p = params(u).find((q) => q[0] === key); return p ? p[1] : null; }
export function stuck(u, m) { return as(m, '{ distinguishingParams: string[] }').distinguishingParams.every((k) => first(u, k) === first(m.target, k)); }
export function named(text, key) { const c = as(text, 'string'), eq = c.indexOf('='); return (eq === -1 ? c : c.substring(0, eq)) === key; }
export function filled(v) { return isStr(v) && v !== ''; }
export function chosen(v, f, g) { return filled(v) ? v : f ?? g; }
export function shared(trace) { const text = trace[0].result; const ok = isStr(text) && text !== '' && isJson(as(text, 'string')); return ok && isObj(parsedJson(as(text, 'string'))) ? as(parsedJson(as(text, 'string')), 'any') : as({}, 'any'); }

export const contracts = [
  { name: 'add parameters', target: UR + '#concatenateQueryParamsOf', props: ['T14'], given: { k: 'string' }, actIn: UR, 
    act: ({ args }) => concatenateQueryParamsOf(args.currentUrl, args.redirectUrl), given: { currentUrl: 'string', redirectUrl: 'string', k: 'string' },
    requires: ({ args }) => ({ 'URLs': !uninterp('url_bad', 'Bool', args.currentUrl) && !uninterp('url_bad', 'Bool', args.redirectUrl) }),
    ensures: ({ args, result }) => {
      const own = params(args.redirectUrl), cur = params(args.currentUrl), got = params(result);
      return { 'path and host': uninterp('url_rest', 'String', result) === uninterp('url_rest', 'String', args.redirectUrl), 'fragment': uninterp('url_hash', 'String', result) === uninterp('url_hash', 'String', args.redirectUrl),
        'its own parameters, then those of the current page it does not have': same(got, [...own, ...cur.filter((p) => !own.some((q) => q[0] === p[0]))]) };
    } },
  // ---------------------------------------------------------------- T01
  ...[['set status', 'setStatus', 'true', 'true'], ['configured status', 'seedFromConfig', '!old.explicit', 'old.explicit']].map(([name, fn, applies, explicit]) => ({ name, target: CM + '#ConsentManager.' + fn, props: ['T01'], throwing: (w) => w !== 'console.warn' && w !== 'console.error',
    snapshot: ({ self }) => ({ status: self.currentStatus, explicit: self.explicitlySet, listeners: [...self.listeners] }),
    loops: [{ over: ({ old }) => old.listeners, inv: ({ args, old, i, trace }) => ({ 'each told once': toldFirst(trace, i, old, args.status) }) }],
    ensures: new Function('{ self, args, old, result, trace }', `
      const move = ${applies} && moved(self, args.status, old);
      return {
        'moves to a decision other than the present one': self.currentStatus === (move ? args.status : old.status) && result === move,
        'an explicit status is remembered': self.explicitlySet === (${explicit}),
        'each listener is told once with both statuses, nobody without a move': toldFirst(trace, move ? old.listeners.length : 0, old, args.status),
        'the listeners stay': same([...self.listeners], old.listeners),
      };`) })),
  { name: 'consent at start', target: CM + '#ConsentManager.constructor', props: ['T01'], ensures: ({ args, result }) => ({ 'the initial status, not explicit, nobody listens': result.currentStatus === (args.initialStatus === undefined ? 'pending' : args.initialStatus) && !result.explicitlySet && result.listeners.size === 0 }) },
  { name: 'consent read', target: CM + '#ConsentManager.getStatus', props: ['T01'], ensures: ({ self, result }) => ({ 'the present status': result === self.currentStatus }) },
  // ---------------------------------------------------------------- T18
  { name: 'publish', target: MB + '#MessageBus.publish', props: ['T18'], dataTypes: ['Subscriber', 'SubscriberGroup'],
    requires: ({ self, args }) => ({ 'groups are records': groupThere(self, args.messageType) }),
    snapshot: ({ self, args }) => ({ subs: subscribersOf(self, args.messageType), last: self.messageToSubscriberGroup.get(args.messageType) ? self.subscriberGroupCallback.get(args.messageType) : undefined }),
    loops: [{ over: ({ old }) => old.subs, inv: ({ args, old, i, trace }) => ({ 'each called once': calledFirst(trace, i, old, args) }) }],
    ensures: ({ args, old, trace }) => {
      const n = old.subs.length, p = args.payload || {};
      return {
        'nobody else is called': trace.length === n + ((old.last !== undefined && old.last !== null) ? 1 : 0),
        'each subscriber is called once, in order, with the payload': forallInt((j) => implies(j >= 0 && j < n, () => trace[j].fn === old.subs[j]['callback'] && same(trace[j].args[0], p))),
        'then the group callback': implies((old.last !== undefined && old.last !== null), () => trace[n].fn === old.last && same(trace[n].args[0], p)) };
    } },
  { name: 'group subscribe', target: MB + '#MessageBus.groupSubscribe', props: ['T18'], given: { other: 'string' }, act: ({ self, args }) => self.groupSubscribe(args.messageType, args.groupCallback), dataTypes: ['Subscriber', 'SubscriberGroup'],
    requires: ({ self, args }) => ({ 'groups are records': groupThere(self, args.messageType) }),
    snapshot: ({ self, args }) => ({ group: self.messageToSubscriberGroup.get(args.messageType), other: self.messageToSubscriberGroup.get(args.other), otherLast: self.subscriberGroupCallback.get(args.other) }),
    ensures: ({ self, args, old }) => ({
      'the latest group callback': self.subscriberGroupCallback.get(args.messageType) === args.groupCallback,
      'the subscribers stay': old.group ? same(self.messageToSubscriberGroup.get(args.messageType), old.group) : self.messageToSubscriberGroup.get(args.messageType).subscribers.length === 0,
      'other types are as they were': implies(args.other !== args.messageType, () => same(self.messageToSubscriberGroup.get(args.other), old.other) && same(self.subscriberGroupCallback.get(args.other), old.otherLast)) }) },
  { name: 'unsubscribe all', target: MB + '#MessageBus.unsubscribeAll', props: ['T18'], ensures: ({ self }) => ({ 'nobody is subscribed': self.messageToSubscriberGroup.size === 0 && self.subscriberGroupCallback.size === 0 }) },
  // ---------------------------------------------------------------- T12
  { name: 'conditions hold', target: 'packages/experiment-core/src/evaluation/evaluation.ts#EvaluationEngine.evaluateConditions', opaque: 'Bool', abstraction: true, why: 'the subject of E04; here any answer, the same for the same event and filters' },
  { name: 'events in window', target: T + 'behavioral-targeting/event-storage.ts#EventStorageManager.getEventsInTimeWindow', opaque: 'Seq', resultType: 'EventRecord[]', abstraction: true, why: 'the subject of T11; here any events' },
  { name: 'count operator', target: EV + '#BehavioralTargetingEvaluator.evaluateCountOperator', props: ['T12'], opaque: 'Bool', ensures: ({ args, result }) => ({ 'compares as the operator says, unknown ones never hold': iff(result, compares(args.operator, args.count, args.threshold)) }) },
  { name: 'event filters', target: EV + '#BehavioralTargetingEvaluator.evaluatePropertyFilters', props: ['T12'], opaque: 'Bool', uses: ['conditions hold'], argTypes: { propertyConditions: 'EvaluationCondition[]' }, ensures: ({ args, result }) => ({ 'all filters hold of the properties of the event': iff(result, passes(args.event, args.propertyConditions)) }) },
  { name: 'behavioral condition', target: EV + '#BehavioralTargetingEvaluator.evaluateCondition', props: ['T12'], opaque: 'Bool', uses: ['events in window', 'event filters', 'count operator'], filterFacts: true,
    ensures: ({ args, result }) => { const c = args.condition, f = c.event_props || [];
      const evs = as(uninterp('fn_events_in_window', 'Seq', c.event_type, c.time_type, c.time_value, c.interval), 'EventRecord[]');
      return { 'compares the number of matching events of the window': iff(result, uninterp('fn_count_operator', 'Bool', evs.filter((e) => uninterp('fn_event_filters', 'Bool', e, f)).length, c.op, c.value)) }; } },
  { name: 'condition set', target: EV + '#BehavioralTargetingEvaluator.evaluateConditionSet', props: ['T12'], opaque: 'Bool', uses: ['behavioral condition'], ensures: ({ args, result }) => ({ 'inverted when negated': iff(result, uninterp('fn_behavioral_condition', 'Bool', args.conditionSet.condition) !== !!args.conditionSet.negated) }) },
  { name: 'condition group', target: EV + '#BehavioralTargetingEvaluator.evaluateAndGroup', props: ['T12'], opaque: 'Bool', uses: ['condition set'], ensures: ({ args, result }) => ({ 'all conditions': iff(result, args.andGroup.every((c) => uninterp('fn_condition_set', 'Bool', c))) }) },
  { name: 'behavioral rule', target: EV + '#BehavioralTargetingEvaluator.evaluate', props: ['T12'], uses: ['condition group'], ensures: ({ args, result }) => ({ 'some group': iff(result, args.rules.some((g) => uninterp('fn_condition_group', 'Bool', g))) }) },
  // ---------------------------------------------------------------- T16
  { name: 'page configuration', target: T + 'util/config.ts#mergeWithWindowConfig', props: ['T16'], argTypes: { config: 'WebExperimentConfig', globalScope: '{ experimentConfig?: WebExperimentConfig } | undefined' },
    ensures: ({ args, result }) => {
      const w = as(args.globalScope?.experimentConfig || {}, 'Record<string, unknown>'), c = as(args.config, 'Record<string, unknown>'), r = as(result, 'Record<string, unknown>');
      const wc = as(as(w, 'WebExperimentConfig').consentOptions || {}, 'Record<string, unknown>'), cc = as(args.config.consentOptions || {}, 'Record<string, unknown>'), rc = as(result.consentOptions, 'Record<string, unknown>');
      return {
        'each option from the page, else from the argument': forallKeys(r, (k) => k === 'consentOptions' || (present(w, k) ? same(r[k], w[k]) : implies(present(c, k), () => same(r[k], c[k])))),
        'consent options merge field by field': forallKeys(rc, (k) => present(wc, k) ? same(rc[k], wc[k]) : same(rc[k], cc[k]) && iff(present(rc, k), present(cc, k))),
      }; } },
  { name: 'default configuration', target: T + 'util/config.ts#mergeWithWindowConfig', props: ['T16'], actIn: T + 'util/config.ts', given: { conf: 'WebExperimentConfig', k: 'string' },
    act: ({ args }) => [mergeWithWindowConfig({}, undefined), mergeWithWindowConfig(args.conf, undefined)],
    ensures: ({ args, result }) => { const d = as(result[0], 'Record<string, unknown>'), c = as(args.conf, 'Record<string, unknown>'), r = as(result[1], 'Record<string, unknown>');
      return { 'what nothing configures has its default': implies(args.k !== 'consentOptions' && !present(c, args.k), () => same(r[args.k], d[args.k])), 'by default nothing is gated': same(d.consentOptions, {}) }; } },
  // ---------------------------------------------------------------- T06
  ...[['identity', '!args.key.endsWith("_DEFAULT_USER_PROVIDER") && /^EXP_[^_]+$/.test(args.key)', ['web_exp_id', 'web_exp_id_v2', 'device_id']], ['user provider', 'args.key.endsWith("_DEFAULT_USER_PROVIDER")', ['first_seen']], ['other', '!args.key.endsWith("_DEFAULT_USER_PROVIDER") && !/^EXP_[^_]+$/.test(args.key)', null]].map(([kind, cond, fields]) => ({
    name: `grant merge of ${kind} records`, regexes: true, target: GM + '#mergePendingJsonWithDevice', props: ['T06'],
    requires: new Function('{ args }', `return { 'the kind of record': ${cond} };`),
    ensures: new Function('{ args, result, trace }', fields ? `
      const stored = trace[0].result, both = stored && readable(as(stored, 'string')) && readable(args.pendingJson);
      return { 'the device is asked once': trace.length === 1 && same(trace[0].args, [args.storageType, args.key]),
        'nothing readable: as buffered': implies(!stored || !isJson(as(stored, 'string')) || !isJson(args.pendingJson), result === args.pendingJson),
        'the durable identity of the device, all else as buffered': implies(both, () => result === withDevice(args.pendingJson, stored, ${JSON.stringify(fields)})) };`
      : `return { 'as buffered': result === args.pendingJson };`) })),
  { name: 'grant merge of the identity cookie', target: GM + '#mergeIdentityCookieJson', props: ['T06'],
    ensures: ({ args, result }) => ({ 'nothing readable: as buffered': implies(!args.deviceJson || !isJson(args.deviceJson) || !isJson(args.pendingJson), result === args.pendingJson),
      'the durable identity of the device, all else as buffered': implies(!!args.deviceJson && readable(as(args.deviceJson, 'string')) && readable(args.pendingJson), () => result === withDevice(args.pendingJson, args.deviceJson, ['web_exp_id_v2', 'first_seen'])) }) },
  // ---------------------------------------------------------------- T19
  { name: 'pages equal', target: PO + '#arePageObjectsEqual', props: ['T19'], ensures: ({ args, result }) => ({ 'same experiments, same pages, same ids': iff(result, samePages(args.a, args.b)) }) },
  { name: 'pages by trigger', target: PO + '#getPageObjectsByTriggerType', props: ['T19'], ensures: ({ args, result }) => ({ 'exactly those whose trigger asks': same(result, Object.values(args.pageObjects).flatMap((ps) => Object.values(ps).filter((p) => args.triggerTypes.includes(p.trigger_type)))) }) },
  // ---------------------------------------------------------------- T17
  ...[['visibility', 'ratio'], ['scrolledTo', 'offset'], ['timeout', 'threshold']].map(([fn, num]) => ({ name: `trigger key ${fn}`, target: TK + '#TriggerStateKeys.' + fn, props: ['T17'],
    requires: new Function('{ args }', `return { 'a selector without NUL': !args.selector.includes('\\0') };`),
    ensures: new Function('{ args, result }', `return { 'the selector ends at the first NUL, the number follows': result === args.selector + '\\0' + \`\${args.${num}}\` && result.indexOf('\\0') === args.selector.length };`) })),
  { name: 'trigger key userInteraction', target: TK + '#TriggerStateKeys.userInteraction', props: ['T17'],
    requires: ({ args }) => ({ 'a selector without NUL': !args.selector.includes('\0'), 'an interaction without NUL': !args.type.includes('\0') }),
    ensures: ({ args, result }) => ({ 'the selector ends at the first NUL, interaction and number follow': result === args.selector + '\0' + args.type + '\0' + `${args.threshold}` && result.indexOf('\0') === args.selector.length && (args.type + '\0' + `${args.threshold}`).indexOf('\0') === args.type.length }) },
  ...[['Visibility', 'visibility', 'ratio'], ['ScrolledTo', 'scrolledTo', 'offset']].map(([Fn, fn, num]) => ({ name: `trigger key decoded ${fn}`, target: TK + '#TriggerStateKeys.parse' + Fn, props: ['T17'], actIn: TK, given: { selector: 'string', x: 'number' },
    requires: ({ args }) => ({ 'a selector without NUL': !args.selector.includes('\0') }),
    act: new Function('{ args }', `return TriggerStateKeys.parse${Fn}(TriggerStateKeys.${fn}(args.selector, args.x));`),
    ensures: new Function('{ args, result }', `return { 'gives back the selector and the number': result.selector === args.selector && result.${num} === args.x };`) })),
  { name: 'arm', target: ST + '#armConsentListener', event: 'armed', abstraction: true, why: 'registers what happens on the decision (contract decision listener); the buffer it clears belongs to a consent manager no longer in use' },
  ...[['withheld', 'isConsentWithheld', "!== 'granted'"], ['pending', 'isConsentPending', "=== 'pending'"]].map(([name, fn, cmp]) => ({ name, target: CG + '#' + fn, props: ['T02', 'T04', 'T05'], ensures: new Function('{ result }', `return { 'consent required and ${name}': result === (mod('consentGate').required && mod('consentGate').manager.currentStatus ${cmp}) };`) })),
  ...['localStorage', 'sessionStorage'].map((type) => ({ ...setup(type), name: 'gated read of ' + type, target: ST + '#getStorageItem', uses: ['arm'], snapshot, act: ({ args }) => getStorageItem(args.storageType, args.key), actIn: ST,
    ensures: ({ args, old, result, env, trace }) => ({
      'withheld: from memory only': implies(old.held, () => same(result, storedValue(old.mine))),
      'else: from the storage': implies(!old.held, () => same(result, storedValue(boxOf(old, args.storageType)[args.key]))),
      'nothing stored or buffered changes': storageSame(old, env) && same(buffer(args.slot2), old.other),
      'the decision is listened for while pending': iff(trace.length > 0, old.waiting) }) })),
  ...['localStorage', 'sessionStorage'].map((type) => ({ ...setup(type), name: 'gated write of ' + type, target: ST + '#setStorageItem', uses: ['arm'], requires: ({ args }) => ({ 'a JSON value': jsonValue(args.value) && args.value !== undefined }), snapshot, act: ({ args }) => setStorageItem(args.storageType, args.key, args.value), actIn: ST,
    ensures: ({ args, old, env, trace }) => ({
      'withheld: storage is not touched': implies(old.held, () => storageSame(old, env)),
      'while pending: kept in memory': implies(old.waiting, () => buffer(slot(args)) === JSON.stringify(args.value)),
      'else memory is as it was': implies(!old.waiting, () => same(buffer(slot(args)), old.mine)),
      'other buffered values stay': implies(args.slot2 !== slot(args), () => same(buffer(args.slot2), old.other)),
      'not withheld: written to the storage': implies(!old.held, () => boxOf(env, args.storageType)[args.key] === JSON.stringify(args.value)),
      'no other entry changes': forallKeys(env.local, (k) => implies(args.storageType !== 'localStorage' || k !== args.key, () => same(env.local[k], old.local[k]))) && forallKeys(env.session, (k) => implies(args.storageType !== 'sessionStorage' || k !== args.key, () => same(env.session[k], old.session[k]))),
      'the decision is listened for while pending': iff(trace.length > 0, old.waiting) }) })),
  ...['localStorage', 'sessionStorage'].map((type) => ({ ...setup(type), name: 'gated removal of ' + type, target: ST + '#removeStorageItem', uses: ['arm'], snapshot, act: ({ args }) => removeStorageItem(args.storageType, args.key), actIn: ST,
    ensures: ({ args, old, env }) => ({
      'while pending: from memory only': implies(old.waiting, () => storageSame(old, env) && buffer(slot(args)) === undefined),
      'else: from the storage': implies(!old.waiting, () => !present(boxOf(env, args.storageType), args.key) && same(buffer(slot(args)), old.mine)),
      'other buffered values stay': implies(args.slot2 !== slot(args), () => same(buffer(args.slot2), old.other)),
      'no other entry changes': forallKeys(env.local, (k) => implies(args.storageType !== 'localStorage' || k !== args.key, () => same(env.local[k], old.local[k]))) && forallKeys(env.session, (k) => implies(args.storageType !== 'sessionStorage' || k !== args.key, () => same(env.session[k], old.session[k]))) }) })),
  // ---------------------------------------------------------------- T03
  { name: 'on decision', target: CG + '#onConsentDecision', event: 'decision', abstraction: true, why: 'contract first decision' },
  { name: 'write out', target: ST + '#writeThrough', event: 'write', abstraction: true, why: 'contract gated write; a full storage: contract write to a full storage' },
  { name: 'grant merge', target: T + 'util/grant-flush-merge.ts#mergePendingJsonWithDevice', opaque: 'String', arity: 3, abstraction: true, why: 'the subject of T06' },
  ...[true, false].map((granted) => ({ name: `decision listener ${granted ? 'granted' : 'denied'}`, target: ST + '#armConsentListener', props: ['T03'], uses: ['on decision', 'write out', 'grant merge'], actIn: ST, given: { slot: 'string' },
    moduleState: { armedManager: (ex, s) => [s, { k: 'null' }] },
    requires: new Function('', `return { 'the decision': ${granted ? "mod('consentGate').manager.currentStatus === 'granted'" : 'true'} };`),
    act: new Function('{ trace }', `armConsentListener(); anyContents(pendingWrites); const all = [...pendingWrites.values()]; trace[0].args[0](${granted}); return all;`),
    loops: [{ over: () => [...mod('pendingWrites').values()], inv: ({ i, trace }) => ({ 'each buffered value written once, merged': flushed(trace, i, [...mod('pendingWrites').values()]) }) }],
    ensures: new Function('{ result, trace }', `return { 'listens once': trace[0].call === 'decision', ${granted ? `'each buffered value is written once, in order, merged with what the device has': flushed(trace, result.length, result)` : `'nothing is written': trace.length === 1`}, 'nothing stays buffered': mod('pendingWrites').size === 0 };`) })),
  { name: 'subscribe to the status', target: T + 'consent/consent-manager.ts#ConsentManager.onChange', event: 'onChange', havoc: true, abstraction: true, why: 'contract consent subscription' },
  { name: 'first decision', target: CG + '#onConsentDecision', props: ['T03', 'T04', 'T05'], uses: ['subscribe to the status'], actIn: CG, given: { handler: '(granted: boolean) => void', status: "'granted' | 'denied'" },
    act: ({ args }) => onConsentDecision(args.handler), after: ({ trace, args }) => trace[0].args[0](args.status, 'pending'),
    ensures: ({ args, trace }) => ({ 'unsubscribes, then tells the handler once whether it was a grant': trace.length === 3 && trace[0].call === 'onChange', 'b': trace[1].fn === trace[0].result, 'c': trace[2].fn === args.handler, 'd': trace[2].args[0] === (args.status === 'granted') }) },
  { name: 'consent subscription', target: T + 'consent/consent-manager.ts#ConsentManager.onChange', props: ['T01'], given: { other: '(status: string, previous: string) => void' }, act: ({ self, args }) => self.onChange(args.listener), snapshot: ({ self, args }) => ({ other: self.listeners.has(args.other) }),
    ensures: ({ self, args, old }) => ({ 'listens': self.listeners.has(args.listener), 'others as they were': implies(args.other !== args.listener, () => iff(self.listeners.has(args.other), old.other)) }) },
  { name: 'write to a full storage', target: ST + '#writeThrough', props: ['T02', 'T03'], env: { local: 'full' }, argTypes: { storageType: "'localStorage'" }, snapshot: ({ env }) => ({ local: snap(env.local) }), ensures: ({ args, env, old }) => ({ 'no other entry changes': forallKeys(env.local, (k) => implies(k !== args.key, () => same(env.local[k], old.local[k]))) }) },
  { name: 'merge cookie values', target: T + 'util/grant-flush-merge.ts#mergeIdentityCookieJson', opaque: true, throws: () => false, abstraction: true, why: 'a string computed from the two; contract grant merge of the identity cookie' },
  { name: 'arm flush', target: CS + '#ConsentAwareCookieStorage.armFlush', event: 'armed', abstraction: true, why: 'registers what happens on the decision: contract cookie flush' },
  { ...cs, name: 'gated cookie read', target: CS + '#ConsentAwareCookieStorage.get', given: { key: 'string', other: 'string' }, act: ({ self, args }) => self.get(args.key), requires: ({ self, args }) => ({ 'JSON values': jsonValue(self.buffered.get(args.key)) }),
    ensures: ({ self, args, old, result, trace }) => ({
      'withheld: from memory, no cookie is touched': implies(old.withheld, () => same(callsOf(trace), ['armed']) && same(result, old.mine)),
      'else: from the cookie': implies(!old.withheld, () => trace.length === 1 && trace[0].call === 'self.delegate.get' && same(trace[0].args, [args.key]) && same(result, trace[0].result)),
      'memory is as it was': same(self.buffered.get(args.other), old.other) }) },
  { ...cs, name: 'gated cookie write', target: CS + '#ConsentAwareCookieStorage.set', given: { key: 'string', value: 'unknown', other: 'string' }, act: ({ self, args }) => self.set(args.key, args.value), requires: ({ args }) => ({ 'a JSON value': jsonValue(args.value) && args.value !== undefined }),
    ensures: ({ self, args, old, trace }) => ({
      'pending: kept in memory, no cookie is touched': implies(old.pending, () => same(callsOf(trace), ['armed']) && same(self.buffered.get(args.key), args.value)),
      'denied: dropped': implies(old.withheld && !old.pending, () => trace.length === 0),
      'else: to the cookie': implies(!old.withheld, () => trace.length === 1 && trace[0].call === 'self.delegate.set' && same(trace[0].args, [args.key, args.value])),
      'the rest of the memory is as it was': implies(!old.pending || args.other !== args.key, () => same(self.buffered.get(args.other), old.other)) }) },
  { ...cs, name: 'gated cookie removal', target: CS + '#ConsentAwareCookieStorage.remove', given: { key: 'string', other: 'string' }, act: ({ self, args }) => self.remove(args.key),
    ensures: ({ self, args, old, trace }) => ({
      'pending: from memory only': implies(old.pending, () => trace.length === 0 && self.buffered.get(args.key) === undefined),
      'else: the cookie': implies(!old.pending, () => trace.length === 1 && trace[0].call === 'self.delegate.remove' && same(trace[0].args, [args.key])),
      'the rest of the memory is as it was': implies(!old.pending || args.other !== args.key, () => same(self.buffered.get(args.other), old.other)) }) },
  ...[true, false].map((granted) => ({ name: `cookie flush ${granted ? 'granted' : 'denied'}`, target: CS + '#ConsentAwareCookieStorage.armFlush', props: ['T04'], uses: ['on decision', 'merge cookie values'], throwing: () => false, keepArrays: true, mapShape: true, noMerge: true,
    requires: new Function('{ self }', `return { 'not armed': !self.flushArmed${granted ? ", 'granted': mod('consentGate').manager.currentStatus === 'granted'" : ''} };`),
    act: new Function('{ self, trace }', `self.armFlush(); anyContents(self.buffered); const all = [...self.buffered]; trace[0].args[0](${granted}); return all;`),
    loops: [{ over: ({ vars }) => vars.entries, inv: ({ vars, i, trace }) => ({ 'two operations each': trace.length === 1 + 2 * i && trace[0].call === 'decision', 'each read': readFirst(trace, i, vars.entries), 'each written once': writtenThen(trace, i, vars.entries) }) }],
    ensures: new Function('{ self, result, trace }', `return { ${granted ? "'each buffered value is written once, nothing else': trace.length === 1 + 2 * result.length && writtenThen(trace, result.length, result), 'each merged with what is there': readFirst(trace, result.length, result)" : "'nothing is written': trace.length === 1"}, 'nothing stays buffered': self.buffered.size === 0, 'armed': self.flushArmed };`) })),
  // ---------------------------------------------------------------- T05
  { name: 'event time', target: IB + '#stampTime', props: ['T05'], ensures: ({ args, result }) => ({ 'the time is the present unless it had one': stamped(result, args.event) }) },
  { name: 'arm impressions', target: IB + '#ImpressionBuffer.armFlush', event: 'armed', abstraction: true, why: 'registers what happens on the decision: contract impressions decided' },
  { name: 'impression', target: IB + '#ImpressionBuffer.track', props: ['T05'], uses: ['arm impressions'], owned: ['self.buffered'],
    snapshot: ({ self }) => ({ withheld: withheld(), pending: pending(), buffered: [...self.buffered] }),
    ensures: ({ self, args, old, result, trace }) => { const n = old.buffered.length, b = self.buffered; return {
      'not withheld: sent at once': implies(!old.withheld, () => trace.length === 1 && trace[0].call === 'self.realTrack' && same(trace[0].args, [args.event]) && same(b, old.buffered)),
      'withheld: nothing is sent': implies(old.withheld, () => result && trace.every((t) => t.call === 'armed')),
      'denied: dropped': implies(old.withheld && !old.pending, () => same(b, old.buffered)),
      'pending: held as the last, the most recent 512': implies(old.pending, () => b.length === (n >= 512 ? n : n + 1) && stamped(b[b.length - 1], args.event) && same(b.slice(0, b.length - 1), n >= 512 ? old.buffered.slice(1) : old.buffered)) }; } },
  { name: 'start retry', target: IB + '#ImpressionBuffer.startRetry', event: 'retry', abstraction: true, why: 'starts the timer that calls flush' },
  { name: 'stop retry', target: IB + '#ImpressionBuffer.stopRetry', event: 'stop', abstraction: true, why: 'stops the timer' },
  { name: 'impressions sent', target: IB + '#ImpressionBuffer.flush', props: ['T05'], uses: ['start retry', 'stop retry'], owned: ['self.buffered'],
    snapshot: ({ self }) => ({ withheld: withheld(), pending: pending(), buffered: [...self.buffered] }),
    loops: [{ inv: ({ old, vars, trace }) => ({ 'range': vars.sent >= 0 && vars.sent <= old.buffered.length && trace.length === vars.sent,
      'in order, all accepted': forallInt((j) => implies(j >= 0 && j < vars.sent, () => trace[j].call === 'self.realTrack' && same(trace[j].args, [old.buffered[j]]) && !!trace[j].result)) }) }],
    ensures: ({ self, old, trace }) => { const n = trace.length - 1, rest = self.buffered.length, k = old.buffered.length - rest; return {
      'withheld: nothing is sent': implies(old.withheld, () => trace.every((t) => t.call !== 'self.realTrack')),
      'denied: discarded': implies(old.withheld && !old.pending, () => rest === 0),
      'pending: all stay': implies(old.pending, () => same(self.buffered, old.buffered)),
      'sent in order from the oldest, each once': implies(!old.withheld, () => n >= k && n <= k + 1 && forallInt((j) => implies(j >= 0 && j < n, () => trace[j].call === 'self.realTrack' && same(trace[j].args, [old.buffered[j]])))),
      'the accepted ones leave, the others stay': implies(!old.withheld, () => k >= 0 && same(self.buffered, old.buffered.slice(k)) && forallInt((j) => implies(j >= 0 && j < k, () => !!trace[j].result))),
      'retried while any is left': implies(!old.withheld, () => trace[n].call === (rest > 0 ? 'retry' : 'stop')) }; } },
  { name: 'impressions discarded', target: IB + '#ImpressionBuffer.discardBuffered', props: ['T05'], uses: ['stop retry'], owned: ['self.buffered'], ensures: ({ self, trace }) => ({ 'nothing is held, the timer stops': self.buffered.length === 0 && same(callsOf(trace), ['stop']) }) },
  { name: 'flush impressions', target: IB + '#ImpressionBuffer.flush', event: 'flush', abstraction: true, why: 'contract impressions sent' },
  { name: 'discard impressions', target: IB + '#ImpressionBuffer.discardBuffered', event: 'discard', abstraction: true, why: 'contract impressions discarded' },
  { name: 'impressions decided', target: IB + '#ImpressionBuffer.armFlush', props: ['T05'], uses: ['on decision', 'flush impressions', 'discard impressions'], given: { granted: 'boolean' }, requires: ({ self }) => ({ 'not armed': !self.flushArmed }),
    act: ({ self, args, trace }) => { self.armFlush(); trace[0].args[0](args.granted); },
    ensures: ({ self, args, trace }) => ({ 'sent on a grant, discarded on a denial': same(callsOf(trace), ['decision', args.granted ? 'flush' : 'discard']) && self.flushArmed }) },
  { name: 'cookie text', target: CK + '#readRawCookie', event: 'readCookie', abstraction: true, why: 'the document: contract raw cookie' },
  { name: 'write cookie text', target: CK + '#writeRawCookie', event: 'writeCookie', abstraction: true, why: 'the document' },
  { name: 'delete cookie text', target: CK + '#deleteRawCookie', event: 'deleteCookie', abstraction: true, why: 'the document' },
  { name: 'arm cookie flush', target: CK + '#SyncJsonCookie.armConsentFlush', event: 'armed', abstraction: true, why: 'registers what happens on the decision: contract cookie kept until the decision' },
  { name: 'JSON cookie read', target: CK + '#SyncJsonCookie.read', props: ['T04'], uses: ['cookie text'], throwing: () => false,
    ensures: ({ self, result, trace }) => ({
      'withheld: from memory, the document is not touched': implies(withheld(), () => trace.length === 0 && same(result, self.memory)),
      'unusable cookie: from memory': implies(self.usable === false, () => trace.length === 0 && same(result, self.memory)),
      'else only that cookie is read': implies(!withheld() && self.usable !== false, () => trace.length === 1 && trace[0].call === 'readCookie' && trace[0].args[0] === self.key && implies(trace[0].result === undefined, () => same(result, self.memory))) }) },
  { name: 'JSON cookie write', target: CK + '#SyncJsonCookie.write', props: ['T04'], uses: ['write cookie text', 'arm cookie flush'], throwing: () => false, requires: ({ args }) => ({ 'a JSON value': jsonValue(args.value) && args.value !== undefined }), snapshot: ({ self }) => ({ usable: self.usable }),
    ensures: ({ self, args, old, trace }) => ({
      'kept in memory': same(self.memory, args.value),
      'pending: written on the decision': implies(pending(), () => same(callsOf(trace), ['armed'])),
      'denied: not written': implies(withheld() && !pending(), () => trace.length === 0),
      'else that cookie is written with the value, and unusable once that fails': implies(!withheld() && old.usable !== false && typeof document !== 'undefined', () => { const w = trace[trace.length - 1]; return w.call === 'writeCookie' && w.args[0] === self.key && w.args[1] === JSON.stringify(args.value) && self.usable === w.result; }) }) },
  { name: 'JSON cookie removal', target: CK + '#SyncJsonCookie.clear', props: ['T04'], uses: ['delete cookie text'],
    ensures: ({ self, trace }) => ({ 'memory is forgotten': self.memory === undefined,
      'pending: the document is not touched': implies(pending(), () => trace.length === 0),
      'else that cookie is deleted': implies(!pending(), () => trace[trace.length - 1].call === 'deleteCookie' && trace[trace.length - 1].args[0] === self.key) }) },
  { name: 'write JSON cookie', target: CK + '#SyncJsonCookie.write', event: 'write', abstraction: true, why: 'contract JSON cookie write' },
  { name: 'cookie kept until the decision', target: CK + '#SyncJsonCookie.armConsentFlush', props: ['T04'], dataTypes: ['T'], uses: ['on decision', 'write JSON cookie'], given: { granted: 'boolean' }, requires: ({ self }) => ({ 'not armed': !self.consentFlushArmed }),
    act: ({ self, args, trace }) => { self.armConsentFlush(); trace[0].args[0](args.granted); },
    ensures: ({ self, args, trace }) => ({ 'written once on a grant, not on a denial': trace[0].call === 'decision' && trace.length === (args.granted && self.memory !== undefined ? 2 : 1) && implies(trace.length === 2, () => trace[1].call === 'write' && same(trace[1].args[0], self.memory)), 'armed': self.consentFlushArmed }) },
  // ---------------------------------------------------------------- T13
  { name: 'stored session', target: CK + '#SyncJsonCookie.read', event: 'read', resultType: 'any', abstraction: true, why: 'contract JSON cookie read; the content goes through contract valid session' },
  { name: 'valid session', target: SM + '#validateSessionState', props: ['T13'], requires: ({ args }) => ({ 'not an array': !isArr(args.data) }),
    ensures: ({ args, result }) => { const d = as(args.data, 'any'); const ok = isObj(args.data) && typeof d.sessionId === 'string' && typeof d.lastEventTime === 'number'; return {
      'unreadable data is no session': implies(!ok, () => result === undefined),
      'else the session of the data': implies(ok, () => !!result && result.sessionId === d.sessionId && result.lastEventTime === d.lastEventTime && result.sessionStartTime === (typeof d.sessionStartTime === 'number' ? d.sessionStartTime : d.lastEventTime)) }; } },
  { name: 'new session', target: SM + '#newSession', props: ['T13'], ensures: ({ args, result }) => ({ 'starts now': result.sessionStartTime === args.now && result.lastEventTime === args.now && result.sessionId.startsWith(`${args.now}-`) }) },
  { name: 'activity', target: SM + '#SessionManager.recordActivity', props: ['T13'], uses: ['stored session', 'write JSON cookie'],
    ensures: ({ self, trace }) => { const st = as(trace[0].result, '{ sessionId: string; sessionStartTime: number; lastEventTime: number } | undefined'); const w = as(trace[1].args[0], '{ sessionId: string; sessionStartTime: number; lastEventTime: number }'); const on = active(st, Date.now(), self.sessionTimeoutMs); return {
      'read then written once': same(callsOf(trace), ['read', 'write']),
      'an active session lasts': implies(on, () => w.sessionId === st.sessionId && w.sessionStartTime === st.sessionStartTime && w.lastEventTime === Date.now()),
      'else a new one starts': implies(!on, () => startsNow(w)) }; } },
  { name: 'current session', target: SM + '#SessionManager.getCurrentSessionId', props: ['T13'], uses: ['stored session', 'write JSON cookie'],
    ensures: ({ self, result, trace }) => { const st = as(trace[0].result, '{ sessionId: string; sessionStartTime: number; lastEventTime: number } | undefined'); const on = active(st, Date.now(), self.sessionTimeoutMs); return {
      'an active session is not extended': implies(on, () => trace.length === 1 && result === st.sessionId),
      'else a new one is stored': implies(!on, () => same(callsOf(trace), ['read', 'write']) && startsNow(trace[1].args[0]) && result === as(trace[1].args[0], '{ sessionId: string }').sessionId) }; } },
  { name: 'session start', target: SM + '#SessionManager.getSessionStartTime', props: ['T13'], uses: ['stored session', 'write JSON cookie'],
    ensures: ({ self, result, trace }) => { const st = as(trace[0].result, '{ sessionId: string; sessionStartTime: number; lastEventTime: number } | undefined'); const on = active(st, Date.now(), self.sessionTimeoutMs); return {
      'an active session is not extended': implies(on, () => trace.length === 1 && result === st.sessionStartTime),
      'else a new one is stored': implies(!on, () => same(callsOf(trace), ['read', 'write']) && startsNow(trace[1].args[0]) && result === Date.now()) }; } },
  // ---------------------------------------------------------------- T07
  { name: 'domains', target: CK + '#getCookieDomainLevels', opaque: true, resultType: 'string[]', abstraction: true, why: 'contract cookie domains' },
  { name: 'persisted keys', target: CD + '#getPersistedDataKeys', props: ['T07'], externals: { MKTG: 'MKTG' },
    ensures: ({ args, result }) => { const k = args.apiKey.slice(0, 10), n = args.instanceName ?? '$default_instance', c = `amp-exp-${n}-web-${args.apiKey.slice(-6)}`; return {
      'local storage': [`EXP_${k}`, `EXP_${k}_DEFAULT_USER_PROVIDER`, `EXP_${k}_rtbt_events`, `EXP_MKTG_${k}`, `EXP_unsent_${n}`].every((x) => result.localStorage.includes(x)) && result.localStorage.length === 5,
      'session storage': [`EXP_${k}_DEFAULT_USER_PROVIDER`, `EXP_${k}_REDIRECT`, c, `${c}-flags`, `${c}-variants-options`, `EXP_sent_v3_${n}`, `EXP_sent_v2_${n}`, `EXP_sent_${n}`].every((x) => result.sessionStorage.includes(x)),
      'cookies': [`EXP_${k}_identity`, `EXP_${k}_rtbt_session`, `AMP_MKTG_ORIGINAL_${k}`, `EXP_${k}_REDIRECT`].every((x) => result.cookies.includes(x)) && result.cookies.length === 4 }; } },
  { name: 'sweep of the storages', target: CD + '#clearAllPersistedData', props: ['T07'], externals: { MKTG: 'MKTG' }, env: { local: true, session: true, location: true }, uses: ['arm', 'domains', 'delete cookie text'], actIn: CD,
    given: { apiKey: 'string', instanceName: 'string | undefined', other: 'string' }, requires: () => ({ 'decided': !(mod('consentGate').required && mod('consentGate').manager.currentStatus === 'pending') }),
    act: ({ args }) => clearAllPersistedData(args.apiKey, args.instanceName), snapshot: ({ args, env }) => ({ local: env.local[args.other], session: env.session[args.other] }),
    ensures: ({ args, env, old }) => { const keys = mod('getPersistedDataKeys')(args.apiKey, args.instanceName); return {
      'every local entry is gone': keys.localStorage.every((k) => !present(env.local, k)),
      'every session entry is gone': keys.sessionStorage.every((k) => !present(env.session, k)),
      'every other local entry stays': implies(!keys.localStorage.includes(args.other), () => same(env.local[args.other], old.local)),
      'every other session entry stays': implies(!keys.sessionStorage.includes(args.other), () => same(env.session[args.other], old.session)) }; } },
  { name: 'without anchor', target: UR + '#urlWithoutHash', props: ['T14', 'T20'], requires: ({ args }) => ({ 'a URL': !bad(args.url) && args.url !== '' }), ensures: ({ args, result }) => ({ 'all but the anchor': rest(result) === rest(args.url) && search(result) === search(args.url) && hash(result) === '' }) },
  { name: 'without query', target: UR + '#urlWithoutQuery', props: ['T14', 'T20'], requires: ({ args }) => ({ 'a URL': !bad(args.url) && args.url !== '' }), ensures: ({ args, result }) => ({ 'all but the query': rest(result) === rest(args.url) && search(result) === '' && hash(result) === hash(args.url) }) },
  { name: 'without query and anchor', target: UR + '#urlWithoutParamsAndAnchor', props: ['T14'], requires: ({ args }) => ({ 'a URL': !bad(args.url) && args.url !== '' }), ensures: ({ args, result }) => ({ 'neither query nor anchor': rest(result) === rest(args.url) && search(result) === '' && hash(result) === '' }) },
  { name: 'unparseable addresses', target: UR + '#urlWithoutHash', props: ['T14'], given: { url: 'string' }, act: ({ args }) => [urlWithoutHash(args.url), urlWithoutQuery(args.url)], actIn: UR, requires: ({ args }) => ({ 'no URL': bad(args.url) }), ensures: ({ args, result }) => ({ 'come back as they are': result[0] === args.url && result[1] === args.url }) },
  // ---------------------------------------------------------------- T20
  { name: 'redirect parameters', target: EX + '#distinguishingParams', props: ['T20'], requires: ({ args }) => ({ 'URLs': !bad(args.fromUrl) && !bad(args.targetUrl) }), ensures: ({ args, result }) => ({ 'the parameters the redirect adds or changes': same(result, params(args.targetUrl).flatMap((p) => first(args.fromUrl, p[0]) !== p[1] ? [p[0]] : [])) }) },
  { name: 'landed', target: EXK + 'markerMatchesTarget', props: ['T20'], requires: ({ args }) => ({ 'URLs': !bad(args.current) && !bad(args.marker.target) && args.current !== '' && args.marker.target !== '' }), ensures: ({ args, result }) => ({ 'same page and fragment, its parameters intact': result === (rest(args.current) === rest(args.marker.target) && hash(args.current) === hash(args.marker.target) && stuck(args.current, args.marker)) }) },
  { name: 'back', target: EXK + 'markerBackAtSource', props: ['T20'], requires: ({ args }) => ({ 'URLs': !bad(args.current) && !bad(args.marker.target) && !bad(args.marker.from) && args.current !== '' && args.marker.from !== '' }), ensures: ({ args, result }) => ({ 'source page and fragment, its parameters lost': result === (rest(args.current) === rest(args.marker.from) && hash(args.current) === hash(args.marker.from) && (as(args.marker, '{ distinguishingParams: string[] }').distinguishingParams.length === 0 || !stuck(args.current, args.marker))) }) },
  { name: 'at the destination', target: EXK + 'isAtDestination', props: ['T20'], fieldTypes: { 'self.globalScope': '{ location: { href: string; hostname: string; replace(url: string): void } }' }, requires: ({ self, args }) => ({ 'URLs': !bad(args.targetUrl) && !bad(self.globalScope.location.href) && args.targetUrl !== '' && self.globalScope.location.href !== '' }), ensures: ({ self, args, result }) => ({ 'same address, the anchor counting only when the target has one': result === (self.globalScope.location.href === args.targetUrl || (hash(args.targetUrl) === '' && rest(args.targetUrl) === rest(self.globalScope.location.href) && search(args.targetUrl) === search(self.globalScope.location.href))) }) },
  { name: 'suppressed', target: EXK + 'isRedirectSuppressed', opaque: 'Bool', abstraction: true, why: 'contract suppression is kept' },
  { name: 'active on page', target: EXK + 'isActionActiveOnPage', opaque: 'Bool', abstraction: true, why: 'whether the action applies to the active pages' },
  { name: 'arrived', target: EXK + 'isAtDestination', opaque: 'Bool', abstraction: true, why: 'contract at the destination' },
  { name: 'went back', target: EXK + 'markerBackAtSource', opaque: 'Bool', abstraction: true, why: 'contract back' },
  { name: 'suppress', target: EXK + 'suppressRedirect', event: 'suppress', abstraction: true, why: 'contract suppression' },
  { name: 'clear marker', target: EXK + 'clearRedirectMarker', event: 'clearMarker', abstraction: true, why: 'removes one marker' },
  { name: 'write marker', target: EXK + 'writeRedirectMarker', event: 'writeMarker', abstraction: true, why: 'stores one marker' },
  { name: 'markers', target: EXK + 'getRedirectMarkers', opaque: true, resultType: 'Record<string, RedirectMarker>', abstraction: true, why: 'the stored markers' },
  { name: 'store impressions', target: EXK + 'storeRedirectImpressions', event: 'impressions', abstraction: true, why: 'impressions kept for the destination page' },
  { name: 'marketing cookie', target: T + 'util/cookie.ts#setMarketingCookie', event: 'marketing', abstraction: true, why: 'attribution cookie' },
  { name: 'target address', target: UR + '#concatenateQueryParamsOf', opaque: 'String', abstraction: true, why: 'contract add parameters' },
  { name: 'changed parameters', target: EX + '#distinguishingParams', opaque: true, resultType: 'string[]', abstraction: true, why: 'contract redirect parameters' },
  { name: 'redirect', target: EXK + 'handleRedirect', props: ['T20'], uses: ['suppressed', 'active on page', 'arrived', 'went back', 'suppress', 'clear marker', 'write marker', 'markers', 'store impressions', 'marketing cookie', 'target address', 'changed parameters'],
    fieldTypes: { 'self.globalScope': '{ location: { href: string; hostname: string; replace(url: string): void } }' }, argTypes: { action: '{ data: { url: string; metadata: { scope: string[] } } }' },
    requires: ({ self }) => ({ 'impressions are not put into the address': !self.config.redirectConfig?.encodeRedirectInUrl }),
    snapshot: ({ self }) => ({ redirecting: self.isRedirecting, from: self.globalScope.location.href }),
    ensures: ({ self, args, old, trace }) => { const to = mod('concatenateQueryParamsOf')(self.globalScope.location.href, args.action?.data?.url), m = self.getRedirectMarkers()[args.flagKey], moved = trace.some((t) => t.call.endsWith('.replace') || t.call === 'self.customRedirectHandler'); return {
      'one redirect at a time': implies(old.redirecting, () => trace.length === 0 && self.isRedirecting),
      'a suppressed flag never redirects': implies(self.isRedirectSuppressed(args.flagKey), () => trace.length === 0),
      'nor does a page that is there already': implies(self.isAtDestination(to), () => trace.length === 0),
      'nor one the visitor came back to by itself: that suppresses the flag': implies(!!m && self.markerBackAtSource(old.from, m), () => !moved && implies(trace.length > 0, () => trace[0].call === 'suppress' && trace[0].args[0] === args.flagKey && trace[1].call === 'clearMarker')),
      'otherwise the page is left': implies(!old.redirecting && !self.isRedirectSuppressed(args.flagKey) && self.isActionActiveOnPage(args.flagKey, args.action?.data?.metadata?.scope) && !self.isAtDestination(to) && !(m && self.markerBackAtSource(old.from, m)), () => moved),
      'the marker is written before the page is left': implies(moved, () => { const n = trace.length; return n >= 3 && trace[n - 3].call === 'writeMarker' && trace[n - 3].args[0] === args.flagKey && same(trace[n - 3].args[1], { from: old.from, target: to, distinguishingParams: mod('distinguishingParams')(old.from, to), landed: false }) && trace[n - 1].args[0] === to; }) }; },
    throws: () => true },
  { name: 'stored list', target: T + 'util/storage.ts#getStorageItem', opaque: true, resultType: 'string[]', abstraction: true, why: 'contract gated read; nothing stored counts as an empty list' },
  { name: 'stored fresh list', target: T + 'util/storage.ts#getStorageItem', opaque: true, fresh: true, resultType: 'string[]', abstraction: true, why: 'contract gated read' },
  { name: 'store list', target: T + 'util/storage.ts#setStorageItem', event: 'store', abstraction: true, why: 'contract gated write' },
  { name: 'suppression', target: EXK + 'suppressRedirect', props: ['T20'], uses: ['stored fresh list', 'store list'], requires: () => ({ 'not debugging': !mod('DebugRecorder').isActive() }),
    ensures: ({ self, args, trace }) => { const was = mod('getStorageItem')('sessionStorage', self.redirectSuppressStorageKey()) || []; return {
      'the flag joins those suppressed this session': implies(!was.includes(args.flagKey), () => trace.length === 1 && same(trace[0].args, ['sessionStorage', self.redirectSuppressStorageKey(), [...was, args.flagKey]])),
      'once': implies(was.includes(args.flagKey), () => trace.length === 0) }; } },
  { name: 'suppression is kept', target: EXK + 'isRedirectSuppressed', props: ['T20'], uses: ['stored list'],
    ensures: ({ self, args, result }) => ({ 'read from where it is written': result === (mod('getStorageItem')('sessionStorage', self.redirectSuppressStorageKey()) || []).includes(args.flagKey) }) },
  { name: 'cookie domains', target: CK + '#getCookieDomainLevels', props: ['T09'], keepArrays: true,
    loops: [{ inv: ({ vars }) => ({ 'index': vars.i >= -1 || vars.i === vars.parts.length - vars.skipLevel - 1, 'so far': vars.levels.length === vars.parts.length - vars.skipLevel - 1 - vars.i && forallInt((j) => implies(j >= 0 && j < vars.levels.length, () => vars.levels[j] === vars.parts.slice(vars.parts.length - vars.skipLevel - 1 - j).join('.'))) }) }],
    ensures: ({ args, result }) => { const parts = args.hostname.toLowerCase().split('.'), known = mod('KNOWN_2LDS').some((t) => args.hostname.toLowerCase().endsWith('.' + t)), skip = known ? 2 : 1; return {
      'a single label has none': implies(parts.length <= 1, () => result.length === 0),
      'from the registrable domain to the host': implies(args.hostname !== '' && parts.length > 1 && parts.length > skip, () => result.length === parts.length - skip && forallInt((j) => implies(j >= 0 && j < result.length, () => result[j] === parts.slice(parts.length - skip - 1 - j).join('.')))) }; } },
  { name: 'read back', target: CK + '#readRawCookie', event: 'readBack', resultType: 'string | undefined', abstraction: true, why: 'the document: its cookies after the write' },
  { name: 'raw cookie write', target: CK + '#writeRawCookie', props: ['T09'], uses: ['read back'], env: { location: true, cookies: true },
    ensures: ({ args, result, trace }) => ({
      'one cookie is written, with the encoded value': trace[0].call === 'document.cookie' && as(trace[0].args[0], 'string').startsWith(`${args.key}=${encodeURIComponent(args.value)}; path=/; SameSite=Lax`) && trace.every((t, i) => i === 0 || t.call === 'readBack'),
      'for its domain': implies(!!args.options?.domain, () => as(trace[0].args[0], 'string').includes(`; domain=${args.options?.domain}`)),
      'it succeeds exactly when the value reads back': trace.length === 2 && trace[1].args[0] === args.key && result === (trace[1].result === args.value) }) },
  { name: 'raw cookie read', target: CK + '#readRawCookie', props: ['T09'], env: { cookies: true }, requires: ({ args }) => ({ 'a cookie name': !args.key.includes('=') }),
    ensures: ({ args, env, result, trace }) => { const list = env.document.cookie ? env.document.cookie.split('; ') : []; return {
      'absent only when no cookie has the name': implies(result === undefined, () => !list.some((c) => named(c, args.key))), 'nothing is written': trace.length === 0 }; } },
  { name: 'raw cookie removal', target: CK + '#deleteRawCookie', props: ['T07', 'T09'], env: { cookies: true },
    ensures: ({ args, trace }) => ({ 'that cookie of that domain expires': trace.length === 1 && trace[0].call === 'document.cookie' && as(trace[0].args[0], 'string').startsWith(`${args.key}=; `) && as(trace[0].args[0], 'string').includes('path=/') && as(trace[0].args[0], 'string').includes('expires=Thu, 01 Jan 1970 00:00:00 GMT') && implies(!!args.domain, () => as(trace[0].args[0], 'string').includes(`; domain=${args.domain}`)) }) },
  { name: 'cross subdomain identity', target: CK + '#resolveCrossSubdomainObject', props: ['T08'], actIn: CK,
    given: { store: 'AsyncCookieStore<string>', key: 'string', fallback: '{ a?: string; b?: string }', ga: 'string', gb: 'string' },
    act: ({ args }) => resolveCrossSubdomainObject(args.store, args.key, args.fallback, { a: () => args.ga, b: () => args.gb }), throws: () => false,
    ensures: ({ args, result, trace }) => { const c = shared(trace), list = !(isStr(trace[0].result) || trace[0].result === undefined) || isStr(trace[0].result) && isJson(as(trace[0].result, 'string')) && isArr(parsedJson(as(trace[0].result, 'string'))); return {
      'the cookie is read first': trace[0].call === 'store.get' && trace[0].args[0] === args.key,
      'each field from the cookie, else the fallback, else new': list || result.a === chosen(c.a, args.fallback.a, args.ga) && result.b === chosen(c.b, args.fallback.b, args.gb),
      'written back exactly when some field was not taken from it': list || iff(trace.length > 1, !(filled(c.a) && filled(c.b))),
      'once, with all fields': implies(trace.length > 1, () => trace.length === 2 && trace[1].call === 'store.set' && trace[1].args[0] === args.key && trace[1].args[1] === JSON.stringify(result)) }; } },
  { name: 'session id', target: SM + '#SessionManager.getCurrentSessionId', opaque: 'String', abstraction: true, why: 'contract current session' },
  { name: 'schedule write', target: ESK + 'scheduleDebouncedWrite', event: 'scheduled', abstraction: true, why: 'starts the timer that calls flushToLocalStorage' },
  { name: 'relayed', target: T + 'behavioral-targeting/relay-client.ts#RelayClient.writeEvent', event: 'relayed', abstraction: true, why: 'the shared store of sibling subdomains' },
  { name: 'event id', target: ES + '#generateEventUuid', event: 'uuid', resultType: 'string', abstraction: true, why: 'a random identifier' },
  { name: 'events of a type', target: ESK + 'getEventsByType', props: ['T11'], ensures: ({ self, args, result }) => ({ 'exactly those, in order': same(result, self.memoryCache.events.filter((e) => e.event_type === args.eventType)) }) },
  { name: 'events in a window', target: ESK + 'getEventsInTimeWindow', props: ['T11'], uses: ['session id'],
    ensures: ({ self, args, result }) => { const ms = args.timeValue * (args.interval === 'day' ? 86400000 : 3600000); return {
      'exactly those of the type and session or window, in order': same(result, self.memoryCache.events.filter((e) => e.event_type === args.eventType).filter((e) => args.timeType === 'current_session' ? e.session_id === self.sessionManager.getCurrentSessionId() : e.timestamp >= Date.now() - ms)) }; } },
  { name: 'window', target: ESK + 'getEventsInTimeWindow', opaque: true, resultType: 'EventRecord[]', abstraction: true, why: 'contract events in a window' },
  { name: 'events counted', target: ESK + 'getEventCountInTimeWindow', props: ['T11'], uses: ['window'], ensures: ({ self, args, result }) => ({ 'their number': result === self.getEventsInTimeWindow(args.eventType, args.timeType, args.timeValue, args.interval).length }) },
  { name: 'events of a type counted', target: ESK + 'getEventCount', props: ['T11'], ensures: ({ self, args, result }) => ({ 'their number': result === self.memoryCache.events.filter((e) => e.event_type === args.eventType).length }) },
  ...['Set<string>', 'undefined'].map((types) => ({ name: types === 'undefined' ? 'event added' : 'event added unless filtered', fieldTypes: { 'self.persistedEvents': types }, target: ESK + 'addEvent', props: ['T10'], uses: ['session id', 'schedule write', 'event id', 'relayed'], owned: ['self.memoryCache', 'self.memoryCache.events'], 
    snapshot: ({ self }) => ({ events: [...self.memoryCache.events], nextId: self.memoryCache.nextId }),
    ensures: ({ self, args, old, trace }) => { const now = self.memoryCache.events, n = old.events.length, out = !!self.persistedEvents && !self.persistedEvents.has(args.eventType), e = now[now.length - 1]; return {
      'a filtered type is dropped': implies(out, () => same(now, old.events) && self.memoryCache.nextId === old.nextId && trace.length === 0),
      'else it is the last': implies(!out, () => e.event_type === args.eventType && e.id === old.nextId && e.session_id === self.sessionManager.getCurrentSessionId() && e.timestamp === (args.eventTime ?? Date.now()) && same(e.properties, args.properties === undefined ? {} : args.properties) && e.uuid === trace[0].result),
      'after the most recent 499': implies(!out, () => same(now.slice(0, now.length - 1), n < 500 ? old.events : old.events.slice(n - 499))),
      'ids stay fresh': implies(!out, () => self.memoryCache.nextId === old.nextId + 1),
      'it is stored': implies(!out, () => trace.some((t) => t.call === 'scheduled')) }; } })),
  { name: 'events stored', target: ESK + 'flushToLocalStorage', props: ['T10', 'T02'], uses: ['store list'], snapshot: ({ self }) => ({ waiting: self.hasPendingWrites }), ensures: ({ self, old, trace }) => ({
      'the log is stored unless consent is withheld': implies(old.waiting, () => iff(trace.some((t) => t.call === 'store'), !mod('isConsentWithheld')())),
      'that log': trace.every((t) => t.call !== 'store' || same(t.args, ['localStorage', self.storageKey, self.memoryCache])), 'nothing waits': !self.hasPendingWrites }) },
];
