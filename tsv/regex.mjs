// JavaScript regular expressions without flags, lookaround, backreferences and boundaries, as SMT-LIB regular languages.
// null: not in the subset (the caller then keeps the expression uninterpreted).
const esc = (c) => (/[A-Za-z0-9_ \-.:\/]/.test(c) ? c : `\\u{${c.charCodeAt(0).toString(16)}}`);
const lit = (s) => `(str.to_re "${[...Array(s.length).keys()].map((i) => esc(s[i])).join('')}")`;
const range = (a, b) => (a === b ? lit(a) : `(re.range "${esc(a)}" "${esc(b)}")`);
const union = (xs) => (xs.length === 0 ? 're.none' : xs.length === 1 ? xs[0] : `(re.union ${xs.join(' ')})`);
const cat = (xs) => (xs.length === 0 ? '(str.to_re "")' : xs.length === 1 ? xs[0] : `(re.++ ${xs.join(' ')})`);
const DIGIT = [range('0', '9')], WORD = [range('a', 'z'), range('A', 'Z'), range('0', '9'), lit('_')];
const SPACE = [...' \t\n\v\f\r\u00a0\u1680\u2028\u2029\u202f\u205f\u3000\ufeff'].map(lit).concat(range('\u2000', '\u200a'));
const NEWLINE = [...'\n\r\u2028\u2029'].map(lit);
const notIn = (xs) => (xs.length ? `(re.inter re.allchar (re.comp ${union(xs)}))` : 're.allchar');
export function regexToSmt(source) {
  let i = 0;
  const fail = () => { throw new RangeError('unsupported'); };
  const escape = (inClass) => {
    const c = source[i++];
    switch (c) {
      case 'd': return DIGIT; case 'w': return WORD; case 's': return SPACE;
      case 'D': return [notIn(DIGIT)]; case 'W': return [notIn(WORD)]; case 'S': return [notIn(SPACE)];
      case 't': return '\t'; case 'n': return '\n'; case 'r': return '\r'; case 'v': return '\v'; case 'f': return '\f';
      case '0': if (/\d/.test(source[i] || '')) fail(); return '\0';
      case 'x': case 'u': { const n = c === 'x' ? 2 : 4, h = source.slice(i, i + n); if (!new RegExp(`^[0-9a-fA-F]{${n}}$`).test(h)) fail(); i += n; return String.fromCharCode(parseInt(h, 16)); }
      case 'b': if (inClass) return '\b'; return fail();
      default: if (c === undefined || /[A-Za-z1-9]/.test(c)) fail(); return c;
    }
  };
  const cls = () => {
    let neg = false; if (source[i] === '^') { neg = true; i++; }
    const parts = [];
    while (source[i] !== ']') {
      if (i >= source.length) fail();
      let a = source[i++]; if (a === '\\') a = escape(true);
      if (Array.isArray(a)) { parts.push(...a); continue; }
      if (source[i] === '-' && source[i + 1] !== ']' && source[i + 1] !== undefined) {
        i++; let b = source[i++]; if (b === '\\') b = escape(true);
        if (Array.isArray(b)) fail();
        parts.push(range(a, b));
      } else parts.push(lit(a));
    }
    i++;
    return neg ? notIn(parts) : union(parts);
  };
  const alt = (depth) => {
    const alts = [];
    for (;;) { alts.push(seq(depth)); if (source[i] === '|') { i++; continue; } break; }
    return alts;
  };
  const seq = (depth) => {
    const parts = []; let start = false, end = false;
    if (source[i] === '^') { if (depth) fail(); start = true; i++; }
    while (i < source.length && source[i] !== '|' && source[i] !== ')') {
      const c = source[i++]; let r;
      if (c === '$') { if (depth || !(i >= source.length || source[i] === '|')) fail(); end = true; break; }
      if (c === '^') fail();
      if (c === '.') r = notIn(NEWLINE);
      else if (c === '[') r = cls();
      else if (c === '(') { if (source[i] === '?') { if (source[i + 1] !== ':') fail(); i += 2; } r = union(alt(depth + 1).map((x) => x.re)); if (source[i++] !== ')') fail(); }
      else if (c === '\\') { const e = escape(false); r = Array.isArray(e) ? union(e) : lit(e); }
      else if ('*+?{}'.includes(c)) fail();
      else r = lit(c);
      const q = source[i];
      if (q === '*' || q === '+' || q === '?') { i++; r = q === '*' ? `(re.* ${r})` : q === '+' ? `(re.+ ${r})` : `(re.opt ${r})`; if (source[i] === '?') i++; } // laziness does not matter for a test
      else if (q === '{') { const m = /^\{(\d+)(,(\d*))?\}/.exec(source.slice(i)); if (!m) fail(); i += m[0].length; r = m[2] === undefined ? `((_ re.loop ${m[1]} ${m[1]}) ${r})` : m[3] === '' ? `(re.++ ((_ re.loop ${m[1]} ${m[1]}) ${r}) (re.* ${r}))` : `((_ re.loop ${m[1]} ${m[3]}) ${r})`; if (source[i] === '?') i++; }
      parts.push(r);
    }
    return { re: cat(parts), start, end };
  };
  try {
    const alts = alt(0);
    if (i !== source.length) return null;
    return union(alts.map((a) => cat([...(a.start ? [] : ['re.all']), a.re, ...(a.end ? [] : ['re.all'])])));
  } catch (e) { if (e instanceof RangeError) return null; throw e; }
}
