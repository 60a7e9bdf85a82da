// C01-C03 executed as oracles on packages/analytics-connector
import { bundle } from '../lib/bundle.mjs';
let M = null;
async function load() {
  if (M) return M;
  M = await bundle((p, has) => `export * from ${JSON.stringify(p('analytics-connector/src/index.ts'))};
${has('analytics-connector/src/util/equals.ts') ? `export { isEqual } from ${JSON.stringify(p('analytics-connector/src/util/equals.ts'))};` : 'export const isEqual = undefined;'}`);
  return M;
}
// structural sameness, independent of the code under test
export function eq(a, b) {
  if (a === null || b === null || typeof a !== 'object' || typeof b !== 'object') return a === b;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => eq(x, b[i]));
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && eq(a[k], b[k]));
}
const KEYS = ['a', 'b', 'c', 'length', 'size', 'name', '0', '1', '', 'user id', 'constructor2', 'toJSON'];
const SCALARS = [null, true, false, 0, 1, -1, 1.5, '', '0', '1', 'a', 'b', 'true', 'null', '1.5'];
function value(r, d = 0) {
  const n = d > 3 ? 0 : r.weighted([[4, 0], [2, 1], [3, 2]]);
  if (n === 0) return r.pick(SCALARS);
  if (n === 1) return r.list(r.int(0, 3), () => value(r, d + 1));
  return Object.fromEntries(r.subset(KEYS, 0.25).map((k) => [k, value(r, d + 1)]));
}
const copy = (r, v) => (v === null || typeof v !== 'object' ? v : Array.isArray(v) ? v.map((x) => copy(r, x)) : Object.fromEntries(r.shuffle(Object.keys(v)).map((k) => [k, copy(r, v[k])])));
// a copy with one place changed
function near(r, v) {
  if (v === null || typeof v !== 'object' || r.bool(0.15)) return value(r, 2);
  if (Array.isArray(v)) {
    const o = v.slice(), k = r.int(0, 3);
    if (k === 0) o.push(value(r, 3)); else if (k === 1 && o.length) o.splice(r.int(0, o.length - 1), 1); else if (k === 2) return { ...o }; else if (o.length) { const i = r.int(0, o.length - 1); o[i] = near(r, o[i]); }
    return o;
  }
  const o = copy(r, v), ks = Object.keys(o), k = r.int(0, 4);
  if (k === 0) o[r.pick(KEYS)] = value(r, 3); else if (k === 1 && ks.length) delete o[r.pick(ks)]; else if (k === 2 && ks.length) { const a = r.pick(ks); const w = o[a]; delete o[a]; o[r.pick(KEYS)] = w; } else if (ks.length) { const a = r.pick(ks); o[a] = near(r, o[a]); }
  return o;
}
const text = (v) => JSON.stringify(v);
const ACTIONS = ['$set', '$unset', '$clearAll', '$other'];
export const replays = {
  async C01(x) {
    const m = await load(), r = x.rng;
    const cmp = m.isEqual ? (a, b) => m.isEqual(a, b) : (a, b) => {
      const s = new m.AnalyticsConnector().identityStore; let n = 0;
      s.setIdentity({ userProperties: { v: a } }); s.addIdentityListener(() => n++); s.setIdentity({ userProperties: { v: b } });
      return n === 0;
    };
    while (x.more()) {
      const a = value(r), b = r.weighted([[3, () => copy(r, a)], [5, () => near(r, a)], [1, () => value(r)]])(), exp = eq(a, b);
      x.count({ a, b, exp });
      for (const [p, q] of [[a, b], [b, a]]) {
        let got; try { got = cmp(p, q); } catch (e) { got = `thrown ${e.message}`; }
        if (got !== exp) x.fail('comparison', `comparing ${text(p)} with ${text(q)}: expected ${exp}, got ${got}`, { a: p, b: q });
      }
      if (cmp(a, a) !== true) x.fail('reflexive', `${text(a)} is not equal to itself`, { a });
    }
  },
  async C02(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const b = new m.AnalyticsConnector().eventBridge, got = [], hist = [];
      let id = 0, cur = null, pending = [], exp = [];
      const steps = r.int(1, 12);
      for (let i = 0; i < steps; i++) {
        const k = r.weighted([[3, 'one'], [1, 'many'], [2, 'receiver']]);
        if (k === 'receiver') {
          const name = i;
          cur = name; hist.push('receiver');
          for (const e of pending) exp.push([name, e]);
          pending = [];
          b.setEventReceiver((e) => got.push([name, e.eventType]));
        } else {
          const n = k === 'one' ? 1 : r.pick([2, 5, 511, 512, 513, 600]);
          hist.push(n);
          for (let j = 0; j < n; j++) {
            const e = id++;
            if (cur === null) { if (pending.length < 512) pending.push(e); } else exp.push([cur, e]);
            b.logEvent({ eventType: e });
          }
        }
        if (!eq(got, exp)) { x.fail('delivery', `after ${text(hist)}: ${exp.length} deliveries expected, ${got.length} made; first difference at ${exp.findIndex((e, q) => !eq(e, got[q]))}`, { hist }); break; }
      }
      x.count({ hist, delivered: got.length });
    }
  },
  async C03(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const store = new m.AnalyticsConnector().identityStore, hist = [];
      let cur = { userProperties: {} }, calls = [], bad = false;
      const fail = (k, msg) => { bad = true; x.fail(k, `after ${text(hist)}: ${msg}`, { hist }); };
      const props = () => Object.fromEntries(r.subset(['a', 'b', 'c', 'd', 'length'], 0.5).map((k) => [k, value(r, 2)]));
      const ls = [0, 1, 2].map((i) => (id) => calls.push([i, JSON.parse(text(id))])), on = [];
      const steps = r.int(2, 10);
      for (let s = 0; s < steps && !bad; s++) {
        const k = r.weighted([[2, 'add'], [1, 'remove'], [2, 'set'], [6, 'edit']]);
        calls = [];
        if (k === 'add') { const i = r.int(0, 2); store.addIdentityListener(ls[i]); if (!on.includes(i)) on.push(i); hist.push(['add', i]); continue; }
        if (k === 'remove') { const i = r.int(0, 2); store.removeIdentityListener(ls[i]); if (on.includes(i)) on.splice(on.indexOf(i), 1); hist.push(['remove', i]); continue; }
        let next;
        if (k === 'set') {
          next = r.bool(0.3) ? copy(r, cur) : { ...(r.bool() ? { userId: r.pick(['u', 'v', '']) } : {}), ...(r.bool() ? { deviceId: r.pick(['d', '']) } : {}), userProperties: props(), ...(r.bool(0.3) ? { optOut: r.bool() } : {}) };
          hist.push(['setIdentity', copy(r, next)]);
          store.setIdentity(copy(r, next));
        } else {
          next = JSON.parse(text(cur));
          next.userProperties = next.userProperties || {};
          const e = store.editIdentity(), ed = [];
          const n = r.int(0, 4);
          for (let q = 0; q < n; q++) {
            const f = r.weighted([[1, 'u'], [1, 'd'], [1, 'o'], [1, 'p'], [4, 'up']]);
            if (f === 'u') { const v = r.pick(['u', 'v', 'w']); ed.push(['userId', v]); e.setUserId(v); next.userId = v; }
            if (f === 'd') { const v = r.pick(['d', 'e']); ed.push(['deviceId', v]); e.setDeviceId(v); next.deviceId = v; }
            if (f === 'o') { const v = r.bool(); ed.push(['optOut', v]); e.setOptOut(v); next.optOut = v; }
            if (f === 'p') { const v = props(); ed.push(['userProperties', v]); e.setUserProperties(copy(r, v)); next.userProperties = v; }
            if (f === 'up') {
              const acts = Object.fromEntries(r.shuffle(r.subset(ACTIONS, 0.5)).map((a) => [a, props()]));
              ed.push(['update', acts]);
              let u = { ...next.userProperties };
              for (const [a, v] of Object.entries(acts)) { if (a === '$set') u = { ...u, ...v }; else if (a === '$unset') { u = Object.fromEntries(Object.entries(u).filter(([z]) => !(z in v))); } else if (a === '$clearAll') u = {}; }
              e.updateUserProperties(JSON.parse(text(acts)));
              next.userProperties = u;
            }
          }
          const commit = r.bool(0.8);
          hist.push(['edit', ed, commit ? 'commit' : 'dropped']);
          if (!eq(store.getIdentity(), cur)) { fail('visible early', `the identity changed to ${text(store.getIdentity())} before the commit`); break; }
          if (calls.length) { fail('early notification', 'listeners were called before the commit'); break; }
          if (!commit) { x.count({ hist }); continue; }
          e.commit();
        }
        const exp = eq(next, cur) ? [] : on.map((i) => [i, next]);
        if (!eq(store.getIdentity(), next)) fail('identity', `expected identity ${text(next)}, got ${text(store.getIdentity())}`);
        else if (!eq([...calls].sort((p, q) => p[0] - q[0]), [...exp].sort((p, q) => p[0] - q[0]))) fail('notification', `expected calls ${text(exp)}, got ${text(calls)}`);
        cur = JSON.parse(text(next));
      }
      x.count({ hist });
    }
  },
};
