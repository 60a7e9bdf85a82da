export function makeRng(seed) {
  let a = (seed >>> 0) ^ 0x9e3779b9;
  const next = () => { a = (a + 0x6d2b79f5) | 0; let t = Math.imul(a ^ (a >>> 15), 1 | a); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
  const r = {
    next, int: (lo, hi) => lo + Math.floor(next() * (hi - lo + 1)), bool: (p = 0.5) => next() < p, pick: (xs) => xs[Math.floor(next() * xs.length)],
    weighted: (xs) => { let t = xs.reduce((s, [w]) => s + w, 0) * next(); for (const [w, x] of xs) { t -= w; if (t <= 0) return x; } return xs[xs.length - 1][1]; },
    list: (n, f) => Array.from({ length: n }, (_, i) => f(i)), shuffle: (xs) => { const a2 = xs.slice(); for (let i = a2.length - 1; i > 0; i--) { const j = Math.floor(next() * (i + 1)); [a2[i], a2[j]] = [a2[j], a2[i]]; } return a2; },
    subset: (xs, p = 0.5) => xs.filter(() => next() < p),
  };
  return r;
}
