// T01-T20 executed as oracles on packages/experiment-tag
import { bundle } from '../lib/bundle.mjs';
import { eq } from './connector.mjs';
let M = null;
async function load() {
  if (M) return M;
  const S = 'experiment-tag/src/';
  M = await bundle((p, has) => [
    ['consent/consent-manager.ts', '{ ConsentManager }'], ['consent/consent-gate.ts', '{ consentGate }'], ['consent/consent-cookie-storage.ts', '{ ConsentAwareCookieStorage }'], ['consent/consent-impression-buffer.ts', '{ wrapIntegrationTrack }'],
    ['consent/clear-data.ts', '{ clearAllPersistedData, armDenialCleanup, clearIfErasedElsewhere }'], ['util/storage.ts', '{ getStorageItem, setStorageItem, removeStorageItem }'],
    ['util/cookie.ts', '{ getCookieDomainLevels, resolveCrossSubdomainObject, readRawCookie, writeRawCookie, deleteRawCookie, SyncJsonCookie }'], ['util/grant-flush-merge.ts', '{ mergePendingJsonWithDevice, mergeIdentityCookieJson }'],
    ['util/url.ts', '{ concatenateQueryParamsOf, removeQueryParams, urlWithoutParamsAndAnchor, urlWithoutQuery, urlWithoutHash }'], ['util/config.ts', '{ mergeWithWindowConfig }'], ['util/page-object.ts', '{ getPageObjectsByTriggerType, getElementSelectors, clonePageObjects, arePageObjectsEqual }'],
    ['util/triggers/trigger-state-keys.ts', '{ TriggerStateKeys }'], ['subscriptions/message-bus.ts', '{ MessageBus }'], ['behavioral-targeting/evaluator.ts', '{ BehavioralTargetingEvaluator }'], ['behavioral-targeting/event-storage.ts', '{ EventStorageManager }'],
    ['behavioral-targeting/session-manager.ts', '{ SessionManager }'], ['util/campaign.ts', '{ enrichUserWithCampaignData }'],
  ].filter(([f]) => has(S + f)).map(([f, what]) => `export ${what} from ${JSON.stringify(p(S + f))};`).join('\n'), { real: true });
  return M;
}
const text = (v) => JSON.stringify(v);
const clone = (v) => (v === undefined ? undefined : JSON.parse(JSON.stringify(v)));
const set = (k, v) => Object.defineProperty(globalThis, k, { value: v, configurable: true, writable: true, enumerable: false });
class Store {
  constructor(full) { this.d = {}; this.full = full; this.ops = []; }
  getItem(k) { this.ops.push(['get', k]); return Object.prototype.hasOwnProperty.call(this.d, k) ? this.d[k] : null; }
  setItem(k, v) { if (this.full && k !== 'EXP_test') throw new Error('QuotaExceededError'); this.ops.push(['set', k]); this.d[k] = String(v); }
  removeItem(k) { this.ops.push(['remove', k]); delete this.d[k]; }
}
// a document with a cookie jar: cookies have a name and a domain (host-only: the host)
function jar(host, { refuse = () => false, shared = [] } = {}) {
  const j = { host, list: shared, writes: [], reads: 0 };
  const within = (h, d) => h === d || h.endsWith('.' + d);
  j.document = {
    visibilityState: 'visible', addEventListener() {}, removeEventListener() {},
    get cookie() { j.reads++; return j.list.filter((c) => (c.hostOnly ? c.domain === j.host : within(j.host, c.domain))).map((c) => `${c.name}=${c.value}`).join('; '); },
    set cookie(t) {
      j.writes.push(t);
      const [nv, ...attrs] = t.split(';').map((q) => q.trim()), at = nv.indexOf('='), name = nv.slice(0, at), value = nv.slice(at + 1);
      const a = Object.fromEntries(attrs.map((q) => { const e = q.indexOf('='); return e < 0 ? [q.toLowerCase(), ''] : [q.slice(0, e).toLowerCase(), q.slice(e + 1)]; }));
      const domain = (a.domain || '').replace(/^\./, '').toLowerCase(), hostOnly = !domain;
      if (domain && !within(j.host, domain) || refuse(domain || j.host, name)) return;
      const d = domain || j.host;
      j.list.splice(0, j.list.length, ...j.list.filter((c) => !(c.name === name && c.domain === d && c.hostOnly === hostOnly)));
      if (a.expires && new Date(a.expires).getTime() <= 0 || a['max-age'] !== undefined && Number(a['max-age']) <= 0) return;
      j.list.push({ name, value, domain: d, hostOnly });
    },
  };
  return j;
}
function page({ local = new Store(), session = new Store(), host = 'www.shop.example.com', href, cookies } = {}) {
  const j = cookies || jar(host);
  set('localStorage', local); set('sessionStorage', session); set('document', j.document);
  set('location', { href: href || `https://${host}/`, hostname: host, protocol: 'https:', search: href ? new URL(href).search : '', origin: `https://${host}` });
  if (!globalThis.addEventListener) { set('addEventListener', () => {}); set('removeEventListener', () => {}); }
  return { local, session, jar: j };
}
const realTimers = { setTimeout: globalThis.setTimeout, clearTimeout: globalThis.clearTimeout, setInterval: globalThis.setInterval, clearInterval: globalThis.clearInterval };
const settle = async () => { for (let i = 0; i < 3; i++) await new Promise((f) => setImmediate(f)); };
function timers() {
  const t = { q: [], intervals: [], n: 1 };
  globalThis.setTimeout = (fn, ms) => { const id = t.n++; t.q.push({ id, fn, ms }); return id; };
  globalThis.clearTimeout = (id) => { t.q = t.q.filter((e) => e.id !== id); };
  globalThis.setInterval = (fn, ms) => { const id = t.n++; t.intervals.push({ id, fn, ms }); return id; };
  globalThis.clearInterval = (id) => { t.intervals = t.intervals.filter((e) => e.id !== id); };
  t.restore = () => Object.assign(globalThis, realTimers);
  return t;
}
// consent: a fresh manager for one run
function consent(m, status, required = true) { m.consentGate.reset(); m.consentGate.manager = new m.ConsentManager(status); m.consentGate.required = required; return m.consentGate.manager; }
// a run must not leave a decision open: what waits for it is module state
function closeConsent(m) { try { m.consentGate.manager.setStatus('denied'); } catch { /* not this property */ } m.consentGate.reset(); }
const realNow = Date.now;
const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
// what a grant writes for a buffered record when the device has `device`
function grantMerge(key, pending, device) {
  const fields = key.endsWith('_DEFAULT_USER_PROVIDER') ? ['first_seen'] : /^EXP_[^_]+$/.test(key) ? ['web_exp_id', 'web_exp_id_v2', 'device_id'] : null;
  return fields ? stick(fields, pending, device) : pending;
}
function stick(fields, pending, device) {
  if (!device) return pending;
  let p, d; try { p = JSON.parse(pending); d = JSON.parse(device); } catch { return pending; }
  const out = { ...p };
  for (const k of fields) if (d[k] !== undefined) out[k] = d[k];
  return text(out);
}
const record = (r) => { const o = {}; for (const k of r.shuffle(['web_exp_id', 'web_exp_id_v2', 'device_id', 'first_seen', 'other', 'user_id'])) if (r.bool()) o[k] = r.pick(['a', 'b', '', 'c', 1]); return o; };
const sorted = (t) => { try { const v = JSON.parse(t); return v && typeof v === 'object' && !Array.isArray(v) ? text(Object.fromEntries(Object.entries(v).sort())) : t; } catch { return t; } };

export const replays = {
  async T01(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const start = r.pick([undefined, 'pending', 'granted', 'denied']), log = [], subs = [], ops = [];
      const cm = start === undefined ? new m.ConsentManager() : new m.ConsentManager(start);
      let status = start || 'pending', explicit = false, want = [];
      for (let n = r.int(2, 14); n-- > 0;) {
        const op = r.pick(['set', 'set', 'seed', 'on', 'off']), s = r.pick(['granted', 'denied', 'pending']);
        ops.push([op, s]); log.length = 0; want = [];
        if (op === 'on') { const id = subs.length, bad = r.bool(0.3), f = (a, b) => { log.push([id, a, b]); if (bad) throw new Error('listener'); }; subs.push({ id, off: cm.onChange(f), on: true }); } else if (op === 'off' && subs.length) { const q = r.pick(subs); q.off(); q.on = false; } else if (op === 'set' || op === 'seed') {
          const move = s !== status && s !== 'pending' && (op === 'set' || !explicit);
          if (op === 'set') explicit = true;
          if (move) want = subs.filter((q) => q.on).map((q) => [q.id, s, status]);
          let got; try { got = op === 'set' ? cm.setStatus(s) : cm.seedFromConfig(s); } catch (e) { x.fail('throws', String(e), { start, ops }); }
          if (move) status = s;
          if (got !== move) x.fail('applied', `${text(ops)}: returned ${got}`, { start, ops });
        }
        if (cm.getStatus() !== status) x.fail('status', `${text(ops)}: ${cm.getStatus()}, expected ${status}`, { start, ops });
        if (text([...log].sort()) !== text([...want].sort())) x.fail('notified', `${text(ops)}: ${text(log)}, expected ${text(want)}`, { start, ops });
      }
      x.count({ start, ops });
    }
  },
  T02: storageRun, T03: storageRun,
  async T04(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      // the asynchronous storage
      page();
      const status0 = r.pick(['pending', 'pending', 'pending', 'granted', 'denied']), required = r.bool(0.9), cm = consent(m, status0, required);
      let status = status0; const d = new Map(), log = [], ops = [];
      const delegate = { async get(k) { log.push(['get', k]); return d.get(k); }, async set(k, v) { log.push(['set', k]); d.set(k, v); }, async remove(k) { log.push(['remove', k]); d.delete(k); } };
      if (r.bool()) d.set('k1', text(record(r)));
      const st = new m.ConsentAwareCookieStorage(delegate), buf = new Map(), cookie = new Map(d), held = () => required && status !== 'granted', fin = (k) => { const v = buf.get(k); return typeof v === 'string' ? stick(['web_exp_id_v2', 'first_seen'], v, cookie.get(k)) : v; };
      for (let n = r.int(2, 12); n-- > 0;) {
        const op = r.weighted([[3, 'get'], [4, 'set'], [1, 'remove'], [2, 'decide']]), k = r.pick(['k1', 'k2', 'k3']);
        log.length = 0;
        if (op === 'decide') {
          const s = r.pick(['granted', 'granted', 'denied']); ops.push([op, s]);
          if (s !== status) { const was = status; status = s; cm.setStatus(s); await settle(); if (was === 'pending') { if (s === 'granted' && required) { const keys = [...buf.keys()]; const sets = log.filter(([o]) => o === 'set').map(([, q]) => q); if (text([...sets].sort()) !== text(keys.sort())) x.fail('grant', `buffered ${text(keys)}, written ${text(sets)}`, { ops }); for (const q of buf.keys()) cookie.set(q, fin(q)); } else if (log.length) x.fail('denied', text(log), { ops }); buf.clear(); } }
        } else if (op === 'set') {
          const v = r.bool() ? { a: r.int(0, 9) } : text(record(r)); ops.push([op, k, clone(v)]); const keep = clone(v);
          const p = st.set(k, v); if (v && typeof v === 'object') v.a = 'changed later'; await p; await settle();
          if (held()) { if (status === 'pending') buf.set(k, keep); } else cookie.set(k, v);
        } else if (op === 'remove') { ops.push([op, k]); await st.remove(k); await settle(); if (held() && status === 'pending') buf.delete(k); else cookie.delete(k); } else {
          ops.push([op, k]);
          const got = await st.get(k), want = held() ? buf.get(k) : cookie.get(k); await settle();
          if (!eq(got, want) && sorted(got) !== sorted(want)) x.fail('read', `${text(ops)}: ${text(got)}, expected ${text(want)}`, { status0, required, ops });
          if (got && typeof got === 'object' && held()) got.a = 'changed by the reader';
        }
        if (op !== 'decide' && held() && log.some(([o]) => o !== 'remove' || status === 'pending')) x.fail('withheld', `${text(ops)}: ${text(log)}`, { status0, required, ops });
        for (const q of new Set([...d.keys(), ...cookie.keys()])) if (!eq(d.get(q), cookie.get(q)) && sorted(d.get(q)) !== sorted(cookie.get(q))) x.fail('cookie', `${text(ops)}: ${q} is ${text(d.get(q))}, expected ${text(cookie.get(q))}`, { status0, required, ops });
      }
      closeConsent(m); await settle(); x.count({ status0, required, ops });
      // the JSON cookie
      const pg = page(), cm2 = consent(m, status0, required), c = new m.SyncJsonCookie('ck', () => '.example.com'), ops2 = [];
      status = status0; let mem, ck; const inJar = () => { const q = pg.jar.list.find((e) => e.name === 'ck'); return q ? JSON.parse(decodeURIComponent(q.value)) : undefined; };
      for (let n = r.int(2, 10); n-- > 0;) {
        const op = r.weighted([[3, 'read'], [3, 'write'], [1, 'clear'], [2, 'decide']]); ops2.push(op);
        const reads = pg.jar.reads, writes = pg.jar.writes.length, before = status, heldBefore = held();
        if (op === 'decide') { const s = r.pick(['granted', 'denied']); ops2[ops2.length - 1] = s; if (s !== status) { status = s; cm2.setStatus(s); if (before === 'pending' && s === 'granted' && required && mem !== undefined) ck = mem; } } else if (op === 'write') { const v = { n: r.int(0, 99), t: r.pick(['a;b', 'ü', '']) }; c.write(v); mem = v; if (!held()) ck = v; } else if (op === 'clear') { c.clear(); mem = undefined; if (!held() || status === 'denied') ck = undefined; } else { const got = c.read(), want = held() ? mem : ck ?? mem; if (!eq(got, want)) x.fail('cookie read', `${text(ops2)}: ${text(got)}, expected ${text(want)}`, { status0, required, ops2 }); }
        if (op !== 'decide' && heldBefore && (pg.jar.reads !== reads || pg.jar.writes.length !== writes && !(op === 'clear' && status === 'denied'))) x.fail('cookie withheld', text(ops2), { status0, required, ops2 });
        if (!eq(inJar(), ck)) x.fail('cookie kept', `${text(ops2)}: ${text(inJar())}, expected ${text(ck)}`, { status0, required, ops2 });
      }
      closeConsent(m); x.count({ status0, required, ops2 });
    }
  },
  async T05(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      page(); const t = timers(); let clock = 1000; Date.now = () => clock;
      try {
        const status0 = r.pick(['pending', 'pending', 'pending', 'granted', 'denied']), cm = consent(m, status0); let status = status0, open = r.pick([0.3, 0.7, 1]);
        const sent = [], offered = []; let held = [], n = 0; const ops = [];
        const integration = { type: 'integration', setup: async () => {}, getUser: () => ({}), track(e) { const ok = r.bool(open); offered.push(e); if (!ok) { if (r.bool(0.3)) throw new Error('tracker'); return false; } sent.push(e); return true; } };
        m.wrapIntegrationTrack(integration); m.wrapIntegrationTrack(integration);
        let want = []; // what must be sent in the end, in order
        const impression = () => { const e = { eventType: '$exposure', eventProperties: { n: n++, ...(r.bool(0.2) ? { time: 7 } : {}) } }; const snap = clone(e); let res, threw; try { res = integration.track(e); } catch { threw = true; } return { snap, at: clock, res, threw }; };
        for (let k = r.int(1, 6); k-- > 0;) {
          clock += r.int(1, 50);
          const op = r.pick(['many', 'decide', 'tick', 'few', 'few']); const was = sent.length, off = offered.length;
          if (op === 'decide') { const s = r.pick(['granted', 'granted', 'denied']); ops.push(s); if (s !== status) { const before = status; status = s; cm.setStatus(s); if (s === 'denied') { held = []; } else if (before === 'pending') { want = held; } if (s === 'denied') want = []; } } else if (op === 'tick') { ops.push(op); for (const i of [...t.intervals]) i.fn(); } else {
            const c = op === 'many' ? r.int(505, 560) : r.int(1, 4); ops.push(c);
            for (let i = 0; i < c; i++) {
              const pre = offered.length, e = impression();
              if (status === 'granted') { if (offered.length - pre !== 1) x.fail('passes straight through', `${text(ops)}: offered ${offered.length - pre} times`, { status0, ops }); else if (!eq(clone(offered[offered.length - 1]), e.snap)) x.fail('as it is', text(offered[offered.length - 1]), { status0, ops }); if (sent.length && sent[sent.length - 1] === offered[offered.length - 1] && eq(clone(sent[sent.length - 1]), e.snap)) sent.splice(sent.length - 1, 1); continue; }
              if (offered.length !== pre) x.fail('withheld', `${text(ops)}: ${text(offered[pre])}`, { status0, ops });
              if (status === 'pending') { held.push({ ...e.snap, eventProperties: { ...e.snap.eventProperties, time: e.snap.eventProperties.time ?? e.at } }); if (held.length > 512) held.shift(); }
            }
          }
          // replayed: in order, each once
          const fresh = sent.slice(was).filter((e) => e.eventProperties);
          for (const e of fresh) { const w = want.shift(); if (!w || !eq(clone(e), w)) { x.fail('replayed in order', `${text(ops)}: sent ${text(e)}, expected ${text(w)}`, { status0, ops }); break; } }
          if (op === 'decide' && status === 'denied' && offered.length !== off) x.fail('denied', text(ops), { status0, ops });
        }
        if (status === 'granted') { open = 1; for (let i = 0; i < 3 && want.length; i++) { const was = sent.length; for (const q of [...t.intervals]) q.fn(); for (const e of sent.slice(was)) { const w = want.shift(); if (!w || !eq(clone(e), w)) { x.fail('replayed in order', `${text(ops)}: sent ${text(e)}, expected ${text(w)}`, { status0, ops }); break; } } } if (want.length) x.fail('until accepted', `${text(ops)}: ${want.length} never sent`, { status0, ops }); }
        closeConsent(m); x.count({ status0, ops });
      } finally { t.restore(); Date.now = realNow; }
    }
  },
  async T06(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const key = r.pick(['EXP_abcdef', 'EXP_abcdef_DEFAULT_USER_PROVIDER', 'EXP_abcdef_rtbt_events', 'EXP_unsent_x', 'EXP_', 'other', 'EXP_MKTG_abc']), pend = r.weighted([[8, text(record(r))], [1, '{bad'], [1, '']]), dev = r.weighted([[8, text(record(r))], [1, null], [1, 'nope'], [1, '']]), type = r.pick(['localStorage', 'sessionStorage']), asked = [];
      const got = m.mergePendingJsonWithDevice(type, key, pend, (a, b) => { asked.push([a, b]); return dev; }), want = grantMerge(key, pend, dev);
      x.count([key, pend, dev]);
      if (sorted(got) !== sorted(want)) x.fail('merge', `${key}: ${pend} with ${dev} gives ${got}, expected ${want}`, { key, pend, dev });
      if (asked.some((q) => !eq(q, [type, key]))) x.fail('asks', text(asked), { key, type });
      const got2 = m.mergeIdentityCookieJson(dev ?? undefined, pend), want2 = stick(['web_exp_id_v2', 'first_seen'], pend, dev);
      if (sorted(got2) !== sorted(want2)) x.fail('cookie merge', `${pend} with ${dev} gives ${got2}, expected ${want2}`, { pend, dev });
    }
  },
  async T07(x) {
    const m = await load(), r = x.rng;
    const keysOf = (api, inst) => { const s = api.slice(0, 10), c = `amp-exp-${inst}-web-${api.slice(-6)}`; return {
      local: [`EXP_${s}`, `EXP_${s}_DEFAULT_USER_PROVIDER`, `EXP_${s}_rtbt_events`, `EXP_MKTG_${s}`, `EXP_unsent_${inst}`],
      session: [`EXP_${s}_DEFAULT_USER_PROVIDER`, `EXP_${s}_REDIRECT`, `EXP_${s}_REDIRECT_MARKER`, `EXP_${s}_REDIRECT_SUPPRESSED`, c, `${c}-flags`, `${c}-variants-options`, `EXP_sent_v3_${inst}`, `EXP_sent_v2_${inst}`, `EXP_sent_${inst}`],
      cookies: [`EXP_${s}_identity`, `EXP_${s}_rtbt_session`, `AMP_MKTG_ORIGINAL_${s}`, `EXP_${s}_REDIRECT`] }; };
    while (x.more()) {
      const api = r.pick(['client-abcdefghij', 'short', 'server-0123456789xyz']), inst = r.pick(['$default_instance', 'inst2']), host = r.pick(['www.shop.example.com', 'example.com', 'a.b.example.co.uk', 'localhost']), required = r.bool(0.7), how = r.pick(['clear', 'arm', 'arm denied', 'elsewhere', 'elsewhere newer']);
      const pg = page({ host }), mine = keysOf(api, inst), others = keysOf('zzzzz-other-key', 'third'), input = { api, inst, host, how };
      const levels = host.split('.').map((_, i, a) => a.slice(i).join('.')).filter((d) => d.includes('.') && d !== 'co.uk');
      const put = () => {
        for (const k of [...mine.local, ...others.local, 'AMP_x', 'EXP_', `EXP_${api.slice(0, 10)}x`]) pg.local.d[k] = '1';
        for (const k of [...mine.session, ...others.session, 'visual-editor-state', 'mine']) pg.session.d[k] = '1';
        pg.jar.list.splice(0, pg.jar.list.length);
        for (const k of [...mine.cookies, ...others.cookies, 'sid']) { if (how === 'elsewhere' && k === mine.cookies[0]) continue; pg.jar.list.push({ name: k, value: '1', domain: host, hostOnly: true }); for (const d of levels) pg.jar.list.push({ name: k, value: '1', domain: d, hostOnly: false }); }
      };
      put();
      const opt = inst === '$default_instance' ? undefined : inst, marker = () => pg.jar.list.some((c) => c.name === `EXP_${api.slice(0, 10)}_erased`);
      consent(m, how.startsWith('elsewhere') || how === 'clear' ? r.pick(['granted', 'denied']) : how === 'arm denied' ? 'denied' : 'pending', required);
      if (how === 'clear') m.clearAllPersistedData(api, opt);
      else if (how === 'arm denied') m.armDenialCleanup(api, opt);
      else if (how === 'arm') { m.armDenialCleanup(api, opt); if (Object.keys(pg.local.d).length !== mine.local.length + others.local.length + 3) x.fail('too early', text(Object.keys(pg.local.d)), input); m.consentGate.manager.setStatus('granted'); if (pg.local.d[mine.local[0]] === undefined) x.fail('erased on grant', '', input); m.consentGate.manager.setStatus('denied'); } else { pg.jar.list.push({ name: `EXP_${api.slice(0, 10)}_erased`, value: '1', domain: levels[levels.length - 1] || host, hostOnly: !levels.length }); m.clearIfErasedElsewhere(api, opt); }
      const erased = how !== 'elsewhere newer'; closeConsent(m);
      x.count(input);
      if (erased) {
        for (const k of mine.local) if (k in pg.local.d) x.fail('local entry left', `${how}: ${k}`, { ...input, k });
        for (const k of mine.session) if (k in pg.session.d) x.fail(/_REDIRECT_(MARKER|SUPPRESSED)$/.test(k) ? `session entry ${k.replace(/^EXP_.*_REDIRECT/, 'EXP_*_REDIRECT')} left` : 'session entry left', `${how}: ${k}`, { ...input, k });
        for (const c of pg.jar.list) if (mine.cookies.includes(c.name)) x.fail('cookie left', `${how}: ${text(c)}`, { ...input, c });
        if (how.startsWith('arm') && levels.length && !marker()) x.fail('not recorded', text(pg.jar.list), input);
      } else if (!(mine.local[0] in pg.local.d) || !(mine.session[0] in pg.session.d)) x.fail('newer identity erased', '', input);
      for (const k of [...others.local, 'AMP_x', 'EXP_', `EXP_${api.slice(0, 10)}x`]) if (!(k in pg.local.d)) x.fail('foreign local entry', `${how}: ${k}`, { ...input, k });
      for (const k of [...others.session, 'visual-editor-state', 'mine']) if (!(k in pg.session.d)) x.fail('foreign session entry', `${how}: ${k}`, { ...input, k });
      for (const k of [...others.cookies, 'sid']) if (pg.jar.list.filter((c) => c.name === k).length !== levels.length + 1) x.fail('foreign cookie', `${how}: ${k}`, { ...input, k });
    }
  },
  async T08(x) {
    const m = await load(), r = x.rng, F = ['web_exp_id', 'web_exp_id_v2', 'first_seen', 'x'];
    while (x.more()) {
      page(); const fields = r.shuffle(r.subset(F, 0.7)), obj = {}; for (const f of F) if (r.bool(0.6)) obj[f] = r.pick(['c1', 'c2', '', 5, null, {}]);
      const raw = r.weighted([[6, text(obj)], [1, undefined], [1, '{bad'], [1, '"text"'], [1, 'null'], [1, '7'], [1, '']]), fb = {}; for (const f of F) if (r.bool()) fb[f] = r.pick(['l1', 'l2']);
      const failGet = r.bool(0.1), failSet = r.bool(0.2), sets = []; let n = 0;
      const store = { async get() { if (failGet) throw new Error('get'); return raw; }, async set(k, v) { sets.push([k, v]); if (failSet) throw new Error('set'); }, async remove() {} };
      let cur = {}; if (!failGet) try { const p = JSON.parse(raw || '{}'); if (p && typeof p === 'object') cur = p; } catch { /* unreadable */ }
      const want = {}; let changed = false; for (const f of fields) { if (typeof cur[f] === 'string' && cur[f]) want[f] = cur[f]; else { want[f] = fb[f] ?? `new-${f}`; changed = true; } }
      let got; try { got = await m.resolveCrossSubdomainObject(store, 'ck', fb, Object.fromEntries(fields.map((f) => [f, () => { n++; return `new-${f}`; }]))); } catch (e) { x.fail('throws', String(e), { raw, fb, fields }); continue; }
      x.count({ raw, fb, fields });
      if (!eq(got, want)) x.fail('resolved', `${text(got)}, expected ${text(want)}`, { raw, fb, fields });
      if (sets.length !== (changed ? 1 : 0) || changed && (sets[0][0] !== 'ck' || !eq(JSON.parse(sets[0][1]), want))) x.fail('written back', `${text(sets)} (changed: ${changed})`, { raw, fb, fields });
    }
  },
  async T09(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const base = r.pick([['example', 'com'], ['example', 'org'], ['example', 'co', 'uk'], ['shop', 'com', 'au'], ['single'], ['amplitude', 'com']]), two = base.length === 3, sub = r.list(r.int(0, 3), () => r.pick(['www', 'a', 'Shop', 'co', 'uk', 'x-1']));
      const parts = [...sub, ...base], host = r.bool(0.2) ? parts.join('.').toUpperCase() : parts.join('.'), low = parts.map((p) => p.toLowerCase());
      const want = []; for (let i = low.length - (two ? 3 : 2); i >= 0; i--) want.push(low.slice(i).join('.'));
      const got = m.getCookieDomainLevels(host);
      x.count(host);
      if (!eq(got, want)) x.fail('levels', `${host}: ${text(got)}, expected ${text(want)}`, { host });
      if (!eq(m.getCookieDomainLevels(two ? base.slice(1).join('.') : 'com'), two ? m.getCookieDomainLevels(base.slice(1).join('.')) : [])) x.fail('suffix', '', { host });
      // raw cookies
      const refuse = r.bool(0.3) ? () => true : (d) => d === 'com' || d === 'co.uk', j = jar(low.join('.'), { refuse }); page({ host: low.join('.'), cookies: j });
      if (r.bool()) j.list.push({ name: 'kk', value: 'other', domain: low.join('.'), hostOnly: true });
      const key = r.pick(['k', 'kk', 'k.2']), value = r.pick(['v', '', 'a;b=c', 'ü%', '{"a":1}', '%']), domain = r.pick([undefined, ...want.map((d) => '.' + d), '.elsewhere.net']);
      let ok; try { ok = m.writeRawCookie(key, value, { domain, ...(r.bool() ? { maxAgeSeconds: 60 } : {}) }); } catch (e) { x.fail('write throws', String(e), { key, value, domain }); continue; }
      const back = m.readRawCookie(key), seen = j.document.cookie.split('; ').find((c) => c.startsWith(key + '='));
      if (ok !== (back === value)) x.fail('success', `${key}=${value} at ${domain}: ${ok}, reads back ${text(back)}`, { host, key, value, domain });
      if (seen === undefined ? back !== undefined : back !== decodeURIComponent(seen.slice(key.length + 1))) x.fail('read', `${text(seen)}: ${text(back)}`, { host, key, value, domain });
      if (ok && !j.list.some((c) => c.name === key && decodeURIComponent(c.value) === value && (domain ? '.' + c.domain === domain && !c.hostOnly : c.hostOnly)) && !j.list.some((c) => c.name === key && decodeURIComponent(c.value) === value)) x.fail('stored', text(j.list), { host, key, value, domain });
      m.deleteRawCookie(key, domain);
      if (j.list.some((c) => c.name === key && (domain ? !c.hostOnly && '.' + c.domain === domain : c.hostOnly)) && !refuse(domain ? domain.slice(1) : low.join('.'))) x.fail('deleted', text(j.list), { host, key, domain });
    }
  },
  async T10(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      page(); const t = timers(); let clock = 5000; Date.now = () => clock;
      try {
        consent(m, 'granted', r.bool()); const sess = { id: 's1', getCurrentSessionId() { return this.id; } }, types = r.bool(0.4) ? new Set(['a', 'b']) : undefined;
        const es = new m.EventStorageManager('api-key-1234', sess, types); let want = [], ops = [], seq = 0, top = 0; const ids = new Set(), uuids = new Set();
        for (let k = r.int(2, 8); k-- > 0;) {
          clock += r.int(0, 30);
          const op = r.weighted([[5, 'few'], [1, 'many'], [2, 'merge']]);
          if (op === 'merge') {
            const mine = es.getAllEvents(), shared = r.list(r.weighted([[4, r.int(0, 4)], [1, 499]]), (i) => (mine.length && r.bool(0.3) ? { ...clone(r.pick(mine)), properties: { shared: true }, timestamp: r.int(0, 6000) } : { uuid: `u${seq++}`, id: r.int(1, 900), event_type: 'a', timestamp: r.int(0, 6000), session_id: 's0', properties: {} })), nextId = r.int(1, 1000);
            const byId = new Map(); for (const e of [...clone(mine), ...shared]) byId.set(e.uuid, e);
            const all = [...byId.values()].sort((a, b) => a.timestamp - b.timestamp), cap = all.slice(-500), before = Math.max(0, ...mine.map((e) => e.id));
            ops.push(['merge', shared.length]); es.mergeFromRelay(clone({ events: shared, nextId }));
            const got = es.getAllEvents();
            if (new Set(got.map((e) => e.uuid)).size !== got.length) x.fail('duplicates', text(ops), { ops });
            if (got.length !== cap.length || !eq(got.map((e) => e.timestamp), cap.map((e) => e.timestamp)) || got.some((e) => !eq(clone(e), byId.get(e.uuid)))) x.fail('merged', `${text(ops)}: ${got.length} events, expected ${cap.length}`, { ops, shared });
            want = clone(got); ids.clear(); for (const e of got) { ids.add(e.id); uuids.add(e.uuid); }
            es.addEvent('a', { probe: 1 }); const e = es.getAllEvents()[es.getAllEvents().length - 1]; if (e.id < nextId || [...ids].some((i) => i >= e.id)) x.fail('fresh id after a merge', `${e.id}`, { ops, nextId }); top = e.id; uuids.add(e.uuid); want.push(clone(e)); if (want.length > 500) want.shift();
          } else {
            const c = op === 'many' ? r.int(490, 520) : r.int(1, 3); ops.push(c); sess.id = r.pick(['s1', 's2']);
            for (let i = 0; i < c; i++) {
              const type = r.pick(['a', 'b', 'c']), props = r.bool() ? { i } : undefined, at = r.bool(0.3) ? r.int(0, 9000) : undefined;
              es.addEvent(type, props, at); const got = es.getAllEvents(), e = got[got.length - 1];
              if (types && !types.has(type)) { if (got.length !== want.length || i === c - 1 && !eq(clone(got), want)) x.fail('filtered', text(ops), { ops, type }); continue; }
              if (!e || e.event_type !== type || e.session_id !== sess.id || e.timestamp !== (at ?? clock) || !eq(e.properties, props ?? {}) || e.id <= top || uuids.has(e.uuid)) { x.fail('added', `${text(ops)}: ${text(e)}`, { ops, type, props, at }); break; }
              top = e.id; uuids.add(e.uuid); want.push(clone(e)); if (want.length > 500) want.shift();
              if (i === c - 1 && !eq(clone(got), want)) x.fail('kept', `${text(ops)}: ${got.length} events, expected ${want.length}`, { ops });
            }
          }
        }
        x.count(ops);
        for (const q of [...t.q]) q.fn();
        const es2 = new m.EventStorageManager('api-key-1234', sess, types); if (want.length && !eq(clone(es2.getAllEvents()), want)) x.fail('stored', `${es2.getAllEvents().length} of ${want.length} events after a reload`, { ops });
        closeConsent(m);
      } finally { t.restore(); Date.now = realNow; }
    }
  },
  async T11(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      page(); const t = timers(), clock = 400 * 86400000; Date.now = () => clock;
      try {
        consent(m, 'granted', false); const sess = { id: 's1', getCurrentSessionId() { return this.id; } }, es = new m.EventStorageManager('k', sess), H = 3600000, edges = [0, H, 2 * H, 24 * H, 48 * H, 7 * 24 * H];
        const log = r.list(r.int(0, 20), () => { sess.id = r.pick(['s1', 's2']); const e = { type: r.pick(['a', 'b']), at: clock - r.pick(edges) - r.pick([-1, 0, 1, 5]), s: sess.id }; es.addEvent(e.type, {}, e.at); return e; });
        sess.id = 's1';
        for (let k = 0; k < 4; k++) {
          const type = r.pick(['a', 'b', 'c']), tt = r.pick(['current_session', 'rolling']), tv = r.pick([0, 1, 2, 7, 24]), iv = r.pick(['day', 'hour', undefined]), ms = tv * (iv === 'day' ? 24 : 1) * H;
          const want = log.filter((e) => e.type === type && (tt === 'current_session' ? e.s === 's1' : e.at >= clock - ms)).map((e) => e.at), got = es.getEventsInTimeWindow(type, tt, tv, iv);
          x.count({ log, type, tt, tv, iv });
          if (!eq(got.map((e) => e.timestamp), want) || got.some((e) => e.event_type !== type)) x.fail('window', `${type} ${tt} ${tv} ${iv}: ${got.length}, expected ${want.length}`, { log, type, tt, tv, iv });
          if (es.getEventCountInTimeWindow && es.getEventCountInTimeWindow(type, tt, tv, iv) !== want.length) x.fail('count', '', { log, type, tt, tv, iv });
          if (!eq(es.getEventsByType(type).map((e) => e.timestamp), log.filter((e) => e.type === type).map((e) => e.at))) x.fail('by type', '', { log, type });
        }
      } finally { t.restore(); Date.now = realNow; }
    }
  },
  async T12(x) {
    const m = await load(), r = x.rng, OPS = ['greater or equal', 'greater', 'is', 'less', 'less or equal', 'is not', 'odd'];
    const cmp = (op, n, v) => (op === 'greater or equal' ? n >= v : op === 'greater' ? n > v : op === 'is' ? n === v : op === 'less' ? n < v : op === 'less or equal' ? n <= v : op === 'is not' ? n !== v : false);
    while (x.more()) {
      const log = r.list(r.int(0, 6), () => ({ event_type: r.pick(['a', 'b']), properties: { p: r.pick(['1', '2']), q: r.pick(['x', 'y']) } }));
      const cond = () => ({ type: 'behavior', event_type: r.pick(['a', 'b']), op: r.pick(OPS), value: r.int(0, 3), time_type: r.pick(['rolling', 'current_session']), time_value: r.int(1, 3), interval: r.pick(['day', 'hour', undefined]), ...(r.bool() ? { event_props: r.subset([{ selector: ['context', 'p'], op: 'is', values: ['1'] }, { selector: ['context', 'q'], op: 'is not', values: ['x'] }], 0.6) } : {}) });
      const rules = r.list(r.int(0, 3), () => r.list(r.int(0, 3), () => ({ condition: cond(), ...(r.bool() ? { negated: r.bool() } : {}) })));
      const asked = [], ev = new m.BehavioralTargetingEvaluator({ getEventsInTimeWindow(type, tt, tv, iv) { asked.push([type, tt, tv, iv]); return log.filter((e) => e.event_type === type && !(tt === 'rolling' && iv === 'hour' && tv === 1)); } });
      const one = ({ condition: c, negated }) => { const es = log.filter((e) => e.event_type === c.event_type && !(c.time_type === 'rolling' && c.interval === 'hour' && c.time_value === 1)).filter((e) => (c.event_props || []).every((f) => (f.op === 'is' ? e.properties.p === '1' : e.properties.q !== 'x'))); return cmp(c.op, es.length, c.value) !== !!negated; };
      const want = rules.some((g) => g.every(one)), got = ev.evaluate(rules);
      x.count({ log, rules });
      if (got !== want) x.fail('rule', `${got}, expected ${want}`, { log, rules });
    }
  },
  async T13(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const pg = page(); let clock = 1e6; Date.now = () => clock;
      try {
        consent(m, 'granted', r.bool()); const T = r.pick([1000, 1800000]); let sm = T === 1800000 && r.bool() ? new m.SessionManager('api') : new m.SessionManager('api', T), id = null, last = 0, start = 0; const ops = [], used = new Set();
        for (let k = r.int(2, 10); k-- > 0;) {
          const dt = r.pick([0, 1, T - 1, T, T + 1, 3 * T]), op = r.weighted([[4, 'activity'], [4, 'read'], [1, 'start'], [1, 'reload'], [1, 'damage'], [1, 'clear']]); clock += dt; ops.push([dt, op]);
          if (op === 'reload') { sm = new m.SessionManager('api', T); continue; }
          if (op === 'clear') { sm.clearSession(); id = null; continue; }
          if (op === 'damage') { for (const c of pg.jar.list) c.value = encodeURIComponent(r.pick(['{', '"x"', '{"sessionId":1}', 'null'])); sm = new m.SessionManager('api', T); id = null; continue; }
          const lives = id !== null && clock - last <= T;
          if (op === 'activity') { sm.recordActivity(); last = clock; if (!lives) { start = clock; id = undefined; } } else if (!lives) { last = start = clock; id = undefined; }
          const c = op === 'start' ? null : sm.getCurrentSessionId(), st = sm.getSessionStartTime(), now = sm.getCurrentSessionId();
          if (id === undefined) { if (used.has(now)) x.fail('rotates', `${text(ops)}: ${now} again`, { T, ops }); id = now; used.add(now); } else if (now !== id) x.fail('lasts', `${text(ops)}: ${now}, expected ${id}`, { T, ops });
          if (st !== start || c !== null && c !== now) x.fail('start', `${text(ops)}: ${st}, expected ${start}`, { T, ops });
        }
        closeConsent(m); x.count({ T, ops });
      } finally { Date.now = realNow; }
    }
  },
  async T14(x) {
    const m = await load(), r = x.rng;
    while (x.more()) {
      const q = () => { const l = r.list(r.int(0, 3), () => `${r.pick(['a', 'b', 'c', 'utm_x', '%C3%BC'])}=${r.pick(['1', '2', '', 'x%26y', 'a+b'])}`); return l.length ? '?' + l.join('&') : ''; }, u = () => `https://${r.pick(['a.example.com', 'b.org:8080'])}${r.pick(['/', '/p', '/p/q.html'])}${q()}${r.pick(['', '#h', '#/r'])}`;
      const cur = u(), to = u(), C = new URL(cur), R = new URL(to), own = [...R.searchParams], want = [...own, ...[...C.searchParams].filter(([k]) => !R.searchParams.has(k))];
      const got = new URL(m.concatenateQueryParamsOf(cur, to));
      x.count([cur, to]);
      if (!eq([...got.searchParams], want) || got.origin !== R.origin || got.pathname !== R.pathname || got.hash !== R.hash) x.fail('parameters', `${cur} + ${to}: ${got}`, { cur, to });
      const drop = r.subset(['a', 'b', 'utm_x', 'ü'], 0.4), rest = new URL(m.removeQueryParams(cur, drop));
      if (!eq([...rest.searchParams], [...C.searchParams].filter(([k]) => !drop.includes(k))) || rest.pathname !== C.pathname || rest.hash !== C.hash || rest.origin !== C.origin) x.fail('removed', `${cur} without ${drop}: ${rest}`, { cur, drop });
      const same = (a, s, h) => { const A = new URL(a); return A.origin === C.origin && A.pathname === C.pathname && A.search === (s ? C.search : '') && A.hash === (h ? C.hash : ''); };
      if (!same(m.urlWithoutParamsAndAnchor(cur), 0, 0) || !same(m.urlWithoutQuery(cur), 0, 1) || !same(m.urlWithoutHash(cur), 1, 0)) x.fail('without', cur, { cur });
      for (const bad of ['', 'no url', '/p?a#b']) if (m.urlWithoutHash(bad) !== bad || m.urlWithoutQuery(bad) !== bad) x.fail('unparseable', bad, { bad });
    }
  },
  async T16(x) {
    const m = await load(), r = x.rng;
    const conf = (n) => { const c = {}; for (const [k, vs] of [['useDefaultNavigationHandler', [true, false]], ['debug', [true, false]], ['instanceName', ['a', 'b', '']], ['serverUrl', ['https://s', 'https://t']], ['fetchTimeoutMillis', [0, 500]], ['applyAntiFlickerCss', [true, false]]]) if (r.bool(0.4)) c[k] = r.pick(vs); if (r.bool(0.6)) { c.consentOptions = {}; for (const [k, vs] of [['required', [true, false]], ['initialStatus', ['granted', 'pending', 'denied']], ['x' + n, [1]]]) if (r.bool()) c.consentOptions[k] = r.pick(vs); } return c; };
    while (x.more()) {
      const c = conf(1), w = r.weighted([[4, conf(2)], [1, undefined]]), defs = m.mergeWithWindowConfig({}, undefined), c0 = clone(c), w0 = clone(w), got = m.mergeWithWindowConfig(c, w === undefined && r.bool() ? undefined : { experimentConfig: w });
      x.count([c, w]);
      const want = { ...defs, ...c, ...(w || {}), consentOptions: { ...(c.consentOptions || {}), ...((w && w.consentOptions) || {}) } };
      if (!eq(got, want)) x.fail('merged', `${text(c)} with page ${text(w)}: ${text(got)}`, { c, w });
      if (!eq(c, c0) || !eq(w, w0)) x.fail('changed its inputs', text([c, w]), { c: c0, w: w0 });
      if (!eq(defs.consentOptions, {})) x.fail('default', text(defs), {});
    }
  },
  async T17(x) {
    const m = await load(), r = x.rng, K = m.TriggerStateKeys, seen = new Map(), SEL = ['#a', '.b > c', '#a1', 'a,b', '.5', 'ü', '', ' ', 'hover', '#a hover'], NUM = [0, 0.5, 1, 10, 0.25, 100, 33.333, 1e21, 1e-7, 5];
    const note = (key, what) => { const w = text(what); if (seen.has(key) && seen.get(key) !== w) x.fail('collision', `${w} and ${seen.get(key)} share a key`, { what }); seen.set(key, w); };
    while (x.more()) {
      const s = r.bool(0.7) ? r.pick(SEL) : r.pick(SEL) + r.pick(SEL) + r.pick(NUM), n = r.bool(0.7) ? r.pick(NUM) : r.int(0, 100000) / 8, t = r.pick(['click', 'hover', 'focus']);
      x.count([s, n, t]);
      note(K.visibility(s, n), [s, n]); note('i' + K.userInteraction(s, t, n), [s, t, n]); note(K.scrolledTo(s, n), [s, n]); note(K.timeout(s, n), [s, n]);
      const v = K.parseVisibility(K.visibility(s, n)), c = K.parseScrolledTo(K.scrolledTo(s, n));
      if (v.selector !== s || v.ratio !== n) x.fail('visibility', `${text([s, n])}: ${text(v)}`, { s, n });
      if (c.selector !== s || c.offset !== n) x.fail('scroll', `${text([s, n])}: ${text(c)}`, { s, n });
    }
  },
  async T18(x) {
    const m = await load(), r = x.rng, TYPES = ['url_change', 'analytics_event', 'manual', 'exit_intent'];
    while (x.more()) {
      const bus = new m.MessageBus(), subs = {}, group = {}, ops = []; let n = 0, log = [];
      for (let k = r.int(2, 14); k-- > 0;) {
        const op = r.weighted([[4, 'sub'], [2, 'group'], [5, 'pub'], [1, 'clear']]), t = r.pick(TYPES); ops.push([op, t]);
        if (op === 'sub') { const id = n++; (subs[t] ??= []).push(id); bus.subscribe(t, (p) => log.push([id, p]), r.bool() ? `l${r.int(0, 2)}` : undefined); } else if (op === 'group') { const id = `g${n++}`; group[t] = id; bus.groupSubscribe(t, (p) => log.push([id, p])); } else if (op === 'clear') { bus.unsubscribeAll(); for (const q of TYPES) { delete subs[q]; delete group[q]; } } else {
          const p = r.pick([undefined, { a: 1 }, { name: 'x' }]); log = []; bus.publish(t, p);
          const want = [...(subs[t] || []), ...(group[t] ? [group[t]] : [])].map((id) => [id, p ?? {}]);
          if (!eq(log, want)) x.fail('published', `${text(ops)}: ${text(log)}, expected ${text(want)}`, { ops });
        }
      }
      x.count(ops);
    }
  },
  async T19(x) {
    const m = await load(), r = x.rng;
    const pages = () => Object.fromEntries(r.subset(['e1', 'e2', 'e3'], 0.6).map((e) => [e, Object.fromEntries(r.shuffle(r.subset(['A', 'B', 'C'], 0.6)).map((n) => [n, { id: r.pick(['1', '2']), name: n, conditions: [], trigger_type: r.pick(['url_change', 'element_appeared', 'element_visible', 'scrolled_to', 'manual']), trigger_value: { selector: r.pick(['#a', '.b', '', undefined]), mode: r.pick(['element', 'percent']) } }]))]));
    while (x.more()) {
      const a = pages(), b = r.bool(0.4) ? clone(a) : pages(); if (r.bool(0.3)) for (const e of Object.values(b)) for (const p of Object.values(e)) p.extra = 1;
      const shape = (q) => text(Object.fromEntries(Object.entries(q).sort().map(([k, v]) => [k, Object.fromEntries(Object.entries(v).sort().map(([n, p]) => [n, p.id]))])));
      x.count([a, b]);
      if (m.arePageObjectsEqual(a, b) !== (shape(a) === shape(b))) x.fail('equal', `${text(a)} and ${text(b)}`, { a, b });
      const a0 = clone(a), c = m.clonePageObjects(a);
      if (!eq(clone(c), a0)) x.fail('copy', text(c), { a });
      for (const e of Object.keys(c)) { for (const n of Object.keys(c[e])) { c[e][n].id = 'changed'; c[e][n].name = 'changed'; } c[e].new = 1; delete c[e].A; } c.new = {}; delete c.e1;
      if (!eq(clone(a), a0)) x.fail('shared', text(a), { a: a0 });
      const types = r.subset(['url_change', 'element_appeared', 'scrolled_to', 'manual'], 0.5), flat = Object.values(a).flatMap((e) => Object.values(e));
      if (!eq(m.getPageObjectsByTriggerType(a, types), flat.filter((p) => types.includes(p.trigger_type)))) x.fail('by trigger', text(types), { a, types });
      const want = flat.filter((p) => p.trigger_value.selector && (['element_appeared', 'element_visible'].includes(p.trigger_type) || p.trigger_type === 'scrolled_to' && p.trigger_value.mode === 'element')).map((p) => p.trigger_value.selector), got = [...m.getElementSelectors(a)];
      if (text([...new Set(want)].sort()) !== text([...got].sort())) x.fail('selectors', `${text(got)}, expected ${text(want)}`, { a });
    }
  },
};
// T02, T03: the gated storages over any sequence of operations and decisions
async function storageRun(x) {
  const m = await load(), r = x.rng, KEYS = ['EXP_abc', 'EXP_abc_DEFAULT_USER_PROVIDER', 'EXP_abc_rtbt_events', 'amp-preview-mode', 'visual-editor-state', 'EXP_unsent_i'], EX = ['amp-preview-mode', 'visual-editor-state'];
  while (x.more()) {
    const full = r.bool(0.1), pg = page({ local: new Store(full) }), status0 = r.pick(['pending', 'pending', 'pending', 'granted', 'denied']), required = r.bool(0.85), ops = [], stores = { localStorage: pg.local, sessionStorage: pg.session };
    for (const s of Object.values(stores)) for (const k of KEYS) if (r.bool(0.3)) s.d[k] = text(record(r));
    const cm = consent(m, status0, required); let status = status0, armed = false; const buf = new Map(), want = { localStorage: { ...pg.local.d }, sessionStorage: { ...pg.session.d } };
    const write = (t, k, j) => { if (!(full && t === 'localStorage')) want[t][k] = j; };
    const failed = (key, msg) => x.fail(key, `${text(ops)}: ${msg}`, { status0, required, full, ops });
    for (let n = r.int(2, 14); n-- > 0;) {
      const op = r.weighted([[3, 'get'], [5, 'set'], [2, 'remove'], [2, 'decide']]), t = r.pick(['localStorage', 'sessionStorage']), k = r.pick(KEYS), held = required && status !== 'granted' && !EX.includes(k), s = stores[t];
      pg.local.ops = []; pg.session.ops = [];
      if (op === 'get') { ops.push([op, t, k]); const raw = held ? (status === 'pending' ? buf.get(`${t}:${k}`) : undefined) : want[t][k], got = m.getStorageItem(t, k), exp = raw ? JSON.parse(raw) : null; if (!eq(got, exp)) failed('read', `${text(got)}, expected ${text(exp)}`); if (held && status === 'pending') armed = true; } else if (op === 'set') { const v = r.pick([record(r), record(r), { n: r.int(0, 9) }, [1, 2], 'text', null, 5]); ops.push([op, t, k, v]); m.setStorageItem(t, k, v); if (held) { if (status === 'pending') buf.set(`${t}:${k}`, text(v)); } else write(t, k, text(v)); } else if (op === 'remove') { ops.push([op, t, k]); m.removeStorageItem(t, k); if (held && status === 'pending') buf.delete(`${t}:${k}`); else delete want[t][k]; } else {
        const d = r.pick(['granted', 'granted', 'denied']); ops.push([op, d]);
        if (d !== status) { const was = status; status = d; cm.setStatus(d); if (was === 'pending') { if (d === 'granted') { for (const [slot, j] of buf) { const i = slot.indexOf(':'), tt = slot.slice(0, i), kk = slot.slice(i + 1); write(tt, kk, grantMerge(kk, j, want[tt][kk] ?? null)); } const sets = [...pg.local.ops.map((o) => ['localStorage', ...o]), ...pg.session.ops.map((o) => ['sessionStorage', ...o])].filter((o) => o[1] === 'set').map((o) => `${o[0]}:${o[2]}`), exp = [...buf.keys()].filter((q) => !(full && q.startsWith('localStorage'))); if (text([...sets].sort()) !== text(exp.sort())) failed('written on the grant', `${text(sets)}, expected ${text(exp)}`); } buf.clear(); } }
      }
      if (op !== 'decide' && held && (pg.local.ops.length || pg.session.ops.length) && !(op === 'remove' && status === 'denied')) failed('withheld', text([pg.local.ops, pg.session.ops]));
      for (const tt of Object.keys(stores)) { const a = Object.fromEntries(Object.entries(stores[tt].d).map(([q, v]) => [q, sorted(v)])), b = Object.fromEntries(Object.entries(want[tt]).map(([q, v]) => [q, sorted(v)])); if (!eq(a, b)) { failed('stored', `${tt}: ${text(a)}, expected ${text(b)}`); break; } }
    }
    closeConsent(m); x.count({ status0, required, ops });
  }
}
