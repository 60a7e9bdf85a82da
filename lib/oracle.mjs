// run-time meaning of the specification vocabulary, so that contract specifications can be executed as oracles
export const models = {};
export class MissingModel extends Error {}
export function same(a, b) {
  if (Object.is(a, b)) return true;
  if (a === b) return true;
  if (typeof a !== 'object' || typeof b !== 'object' || !a || !b) return false;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => same(x, b[i]));
  const ka = Object.keys(a).filter((k) => a[k] !== undefined), kb = Object.keys(b).filter((k) => b[k] !== undefined);
  return ka.length === kb.length && ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && same(a[k], b[k]));
}
Object.assign(globalThis, { same, iff: (a, b) => !!a === !!b, implies: (a, f) => (a ? !!(typeof f === 'function' ? f() : f) : true), present: (o, k) => Object.prototype.hasOwnProperty.call(o, k), uninterp: (name, sort, ...args) => { if (!models[name]) throw new MissingModel(name); return models[name](...args); }, as: (v) => v, isObj: (v) => typeof v === 'object' && v !== null && !Array.isArray(v), isArr: Array.isArray, isStr: (v) => typeof v === 'string', isNum: (v) => typeof v === 'number', isBool: (v) => typeof v === 'boolean' });
