// C01-C03: packages/analytics-connector
const EQ = 'packages/analytics-connector/src/util/equals.ts';
const BR = 'packages/analytics-connector/src/eventBridge.ts';
const ID = 'packages/analytics-connector/src/identityStore.ts';

export function jsonKind(v) { return v === undefined || v === null || isStr(v) || isNum(v) || isBool(v) || isArr(v) || isObj(v); }
// one unfolding of "v is a JSON-like value"
export function json(v) { return uninterp('fn_json', 'Bool', v); }
export function jsonParts(v) {
  return jsonKind(v) && implies(isArr(v), () => forallInt((i) => implies(i >= 0 && i < as(v, 'unknown[]').length, () => json(as(v, 'unknown[]')[i]))))
    && implies(isObj(v), () => forallKeys(as(v, 'Record<string, unknown>'), (k) => json(as(v, 'Record<string, unknown>')[k])));
}
export function keyList(v) { return Object.keys(as(v, 'Record<string, unknown>')).sort(); }
export const contracts = [
  { name: 'isEqual', target: EQ + '#isEqual', props: ['C01'], recursive: true, keyOrder: true, uses: ['isEqual'],
    requires: ({ args }) => ({ 'JSON-like': json(args.obj1) && json(args.obj2) }),
    unfold: ({ args }) => ({ 'JSON-like values have JSON-like parts': jsonParts(args.obj1) && jsonParts(args.obj2), 'key lists are lists of text': implies(isObj(args.obj1), () => json(keyList(args.obj1))) && implies(isObj(args.obj2), () => json(keyList(args.obj2))), 'extensionality': extensional(args.obj1, args.obj2) }),
    model: ({ args }) => same(args.obj1, args.obj2),
    ensures: ({ args, result }) => ({ 'equal exactly when structurally the same': iff(result, same(args.obj1, args.obj2)) }) },
  // what an edit leaves does not depend on whether the listeners are told
  { name: 'isEqual, any answer', target: EQ + '#isEqual', props: [], opaque: 'Bool', abstraction: true, why: 'over-approximation: either answer' },
  // ---------------------------------------------------------------- C02
  { name: 'event before a receiver', target: BR + '#EventBridgeImpl.logEvent', props: ['C02'], optional: ['self.receiver'], owned: ['self.queue'],
    requires: ({ self }) => ({ 'no receiver yet': self.receiver === undefined }),
    snapshot: ({ self }) => ({ queue: snap(self.queue) }),
    ensures: ({ self, args, old, trace }) => ({
      'nothing is delivered': trace.length === 0,
      'there is still no receiver': self.receiver === undefined,
      'it is queued last while fewer than 512 are queued, and dropped otherwise': same(self.queue, old.queue.length < 512 ? [...old.queue, args.event] : old.queue),
    }) },
  { name: 'event after a receiver', target: BR + '#EventBridgeImpl.logEvent', props: ['C02'], owned: ['self.queue'],
    requires: ({ self }) => ({ 'a receiver is set': self.receiver !== undefined }),
    snapshot: ({ self }) => ({ queue: snap(self.queue), receiver: self.receiver }),
    ensures: ({ self, args, old, trace }) => ({
      'delivered to the receiver once': trace.length === 1 && trace[0].call === 'self.receiver' && same(trace[0].args, [args.event]),
      'nothing is queued': same(self.queue, old.queue),
      'the receiver stays': self.receiver === old.receiver,
    }) },
  { name: 'setting a receiver', target: BR + '#EventBridgeImpl.setEventReceiver', props: ['C02'], optional: ['self.receiver'], owned: ['self.queue'],
    snapshot: ({ self }) => ({ queue: snap(self.queue) }),
    ensures: ({ self, args, old, trace }) => ({
      'every queued event is delivered to it in order, once': same(trace.map((t) => t.args), old.queue.map((e) => [e])) && trace.every((t) => t.call === 'receiver'),
      'nothing stays queued': self.queue.length === 0,
      'it becomes the receiver': self.receiver === args.receiver,
    }) },
  { name: 'a new bridge', target: BR + '#EventBridgeImpl.constructor', props: ['C02'], optional: ['self.receiver'], owned: ['self.queue'],
    ensures: ({ result }) => ({ 'has no receiver and no queued events': result.receiver === undefined && result.queue.length === 0 }) },
  // ---------------------------------------------------------------- C03
  { name: 'committing an identity', target: ID + '#IdentityStoreImpl.setIdentity', props: ['C03'], uses: ['isEqual'],
    requires: ({ self, args }) => ({ 'identities are JSON-like': json(self.identity) && json(args.identity) }),
    snapshot: ({ self }) => ({ identity: snap(self.identity), listeners: [...self.listeners] }),
    ensures: ({ self, args, old, trace }) => ({
      'it becomes the current identity': same(self.identity, args.identity),
      'every listener is notified once with it when it differs, none otherwise': same(trace.map((t) => [t.fn, ...t.args]), same(old.identity, args.identity) ? [] : old.listeners.map((l) => [l, args.identity])),
      'the listeners stay': same([...self.listeners], old.listeners),
    }) },
  // the editor: the edit first sets arbitrary user properties, so the update starts from an arbitrary acting identity
  { name: 'editing: the setters', target: ID + '#IdentityStoreImpl.editIdentity', props: ['C03'], overSource: true, uses: ['isEqual, any answer'],
    given: { u: 'string', d: 'string', p: 'Record<string, unknown>', o: 'boolean' },
    snapshot: ({ self }) => ({ identity: snap(self.identity) }),
    act: ({ self, args }) => {
      const none = self.editIdentity(); const e0 = snap(self.identity); none.commit(); const id0 = snap(self.identity);
      const e = self.editIdentity().setUserId(args.u); const e1 = snap(self.identity); e.commit(); const id1 = snap(self.identity);
      const f = self.editIdentity().setDeviceId(args.d); const e2 = snap(self.identity); f.commit(); const id2 = snap(self.identity);
      const g = self.editIdentity().setUserProperties(args.p); const e3 = snap(self.identity); g.commit(); const id3 = snap(self.identity);
      const h = self.editIdentity().setOptOut(args.o); const e4 = snap(self.identity); h.commit(); const id4 = snap(self.identity);
      return { e0, id0, e1, id1, e2, id2, e3, id3, e4, id4 };
    },
    ensures: ({ args, old, result: r }) => ({
      'nothing changes before the commit': same(r.e0, old.identity) && same(r.e1, r.id0) && same(r.e2, r.id1) && same(r.e3, r.id2) && same(r.e4, r.id3),
      'an empty edit changes nothing': same(r.id0, { ...old.identity, userProperties: { ...old.identity.userProperties } }),
      'setUserId sets the user id only': same(r.id1, { ...r.id0, userId: args.u }),
      'setDeviceId sets the device id only': same(r.id2, { ...r.id1, deviceId: args.d }),
      'setUserProperties replaces the user properties only': same(r.id3, { ...r.id2, userProperties: { ...args.p } }),
      'setOptOut sets the opt-out flag only': same(r.id4, { ...r.id3, optOut: args.o }),
    }) },
  ...[['$set'], ['$unset'], ['$clearAll'], ['$other'], ['$set', '$unset'], ['$unset', '$set'], ['$set', '$clearAll'], ['$clearAll', '$set'], ['$unset', '$clearAll'], ['$clearAll', '$unset'],
    ['$set', '$unset', '$clearAll'], ['$set', '$clearAll', '$unset'], ['$unset', '$set', '$clearAll'], ['$unset', '$clearAll', '$set'], ['$clearAll', '$set', '$unset'], ['$clearAll', '$unset', '$set'], ['$set', '$other', '$unset']].map((ops) => ({
    name: 'updating: ' + ops.join(' '), target: ID + '#IdentityStoreImpl.editIdentity', props: ['C03'], overSource: true, uses: ['isEqual, any answer'],
    given: { p: 'Record<string, unknown>', ops: '{ a: Record<string, unknown>; b: Record<string, unknown>; c: Record<string, unknown> }', k: 'string' },
    snapshot: ({ self }) => ({ identity: snap(self.identity) }),
    act: new Function('{ self, args }', `const e = self.editIdentity().setUserProperties(args.p); e.updateUserProperties({ ${ops.map((o, i) => `${o}: args.ops.${'abc'[i]}`).join(', ')} }); const mid = snap(self.identity); e.commit(); return { mid };`),
    ensures: new Function('{ self, args, old, result }', `const u = as(self.identity.userProperties, 'Record<string, unknown>'); const k = args.k; return {
      'nothing changes before the commit': same(result.mid, old.identity),
      'the update changes the user properties only': same({ ...self.identity, userProperties: 0 }, { ...old.identity, userProperties: 0 }),
      'each user property is there exactly when the actions, applied in order, leave it there': iff(present(u, k), ${ops.reduce((h, o, i) => o === '$set' ? `(present(args.ops.${'abc'[i]}, k) || ${h})` : o === '$unset' ? `(${h} && !present(args.ops.${'abc'[i]}, k))` : o === '$clearAll' ? 'false' : h, 'present(args.p, k)')}),
      'and has the value the last action setting it gave it': implies(present(u, k), () => same(u[k], ${ops.reduce((v, o, i) => o === '$set' ? `(present(args.ops.${'abc'[i]}, k) ? args.ops.${'abc'[i]}[k] : ${v})` : v, 'args.p[k]')})) };`),
  })),
  { name: 'adding a listener', target: ID + '#IdentityStoreImpl.addIdentityListener', props: ['C03'],
    given: { listener: 'IdentityListener', other: 'IdentityListener' }, act: ({ self, args }) => { self.addIdentityListener(args.listener); },
    snapshot: ({ self, args }) => ({ other: self.listeners.has(args.other), identity: snap(self.identity) }),
    ensures: ({ self, args, old, trace }) => ({
      'it is registered, and nothing else changes': self.listeners.has(args.listener) && implies(args.listener !== args.other, () => iff(self.listeners.has(args.other), old.other)),
      'the identity stays and nobody is notified': same(self.identity, old.identity) && trace.length === 0,
    }) },
  { name: 'removing a listener', target: ID + '#IdentityStoreImpl.removeIdentityListener', props: ['C03'],
    given: { listener: 'IdentityListener', other: 'IdentityListener' }, act: ({ self, args }) => { self.removeIdentityListener(args.listener); },
    snapshot: ({ self, args }) => ({ other: self.listeners.has(args.other), identity: snap(self.identity) }),
    ensures: ({ self, args, old, trace }) => ({
      'it is no longer registered, and nothing else changes': !self.listeners.has(args.listener) && implies(args.listener !== args.other, () => iff(self.listeners.has(args.other), old.other)),
      'the identity stays and nobody is notified': same(self.identity, old.identity) && trace.length === 0,
    }) },
];
