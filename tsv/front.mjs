// Parses TypeScript modules of /repo and resolves names and declared types.
import { createRequire } from 'node:module';
import { readFileSync, existsSync } from 'node:fs';
import { dirname, join, resolve } from 'node:path';
const require = createRequire('/opt/veriftools/node/node_modules/');
export const ts = require('typescript');
const SK = ts.SyntaxKind;
export const REPO = process.env.TSV_REPO || '/repo';
const ALIAS = {
  '@amplitude/experiment-core': 'packages/experiment-core/src/index.ts',
  '@amplitude/experiment-js-client': 'packages/experiment-browser/src/index.ts',
  '@amplitude/analytics-connector': 'packages/analytics-connector/src/index.ts',
};
const modules = new Map();
export class FrontError extends Error {}

export function loadModule(path) {
  const abs = path.startsWith('/') ? path : join(REPO, path);
  let m = modules.get(abs);
  if (m) return m;
  if (!existsSync(abs)) throw new FrontError(`source file not found: ${abs}`);
  m = parseModule(abs, readFileSync(abs, 'utf8'));
  modules.set(abs, m);
  return m;
}
export function parseModule(abs, text) {
  const sf = ts.createSourceFile(abs, text, ts.ScriptTarget.ES2020, true, abs.endsWith('.tsx') ? ts.ScriptKind.TSX : ts.ScriptKind.TS);
  const m = { path: abs, rel: abs.startsWith(REPO + '/') ? abs.slice(REPO.length + 1) : abs, sf, decls: new Map(), types: new Map(), imports: new Map(), reexports: [], stars: [], id: modules.size + 1 };
  for (const st of sf.statements) addStatement(m, st);
  return m;
}
function addStatement(m, st) {
  if (ts.isImportDeclaration(st)) {
    const from = st.moduleSpecifier.text;
    const cl = st.importClause;
    if (!cl) return;
    if (cl.name) m.imports.set(cl.name.text, { from, name: 'default' });
    if (cl.namedBindings) {
      if (ts.isNamespaceImport(cl.namedBindings)) m.imports.set(cl.namedBindings.name.text, { from, name: '*' });
      else for (const e of cl.namedBindings.elements) m.imports.set(e.name.text, { from, name: (e.propertyName || e.name).text });
    }
  } else if (ts.isExportDeclaration(st)) {
    const from = st.moduleSpecifier ? st.moduleSpecifier.text : null;
    if (!st.exportClause) m.stars.push(from);
    else if (ts.isNamedExports(st.exportClause)) for (const e of st.exportClause.elements) m.reexports.push({ as: e.name.text, name: (e.propertyName || e.name).text, from });
  } else if (ts.isFunctionDeclaration(st)) {
    if (st.name && st.body) m.decls.set(st.name.text, { kind: 'fn', node: st });
  } else if (ts.isClassDeclaration(st)) {
    if (st.name) { m.decls.set(st.name.text, { kind: 'class', node: st }); m.types.set(st.name.text, st); }
  } else if (ts.isVariableStatement(st)) {
    const isConst = !!(st.declarationList.flags & ts.NodeFlags.Const);
    for (const d of st.declarationList.declarations) {
      if (ts.isIdentifier(d.name)) m.decls.set(d.name.text, { kind: 'var', node: d, isConst });
      else collectNames(d.name, (n) => m.decls.set(n, { kind: 'pattern', node: d, isConst }));
    }
  } else if (ts.isEnumDeclaration(st)) {
    m.decls.set(st.name.text, { kind: 'enum', node: st });
    m.types.set(st.name.text, st);
  } else if (ts.isInterfaceDeclaration(st)) {
    const prev = m.types.get(st.name.text);
    if (prev && ts.isInterfaceDeclaration(prev)) (prev.merged ||= []).push(st);
    else m.types.set(st.name.text, st);
  } else if (ts.isTypeAliasDeclaration(st)) {
    m.types.set(st.name.text, st);
  }
}
export function collectNames(pat, f) {
  if (ts.isIdentifier(pat)) f(pat.text);
  else for (const e of pat.elements) if (!ts.isOmittedExpression(e)) collectNames(e.name, f);
}
export function resolveSpecifier(from, fromFile) {
  if (ALIAS[from]) return join(REPO, ALIAS[from]);
  if (!from.startsWith('.')) return null;
  const base = resolve(dirname(fromFile), from);
  for (const c of [base + '.ts', base + '.tsx', join(base, 'index.ts'), base]) if (existsSync(c) && /\.(tsx?|mjs)$/.test(c)) return c;
  return null;
}
// resolve an imported/exported value name: {module, decl} or {external, name}
export function lookupExport(m, name, seen = new Set()) {
  const key = m.path + '#' + name;
  if (seen.has(key)) return null;
  seen.add(key);
  if (m.decls.has(name)) return { module: m, name, decl: m.decls.get(name) };
  if (m.types.has(name)) return { module: m, name, type: m.types.get(name) };
  if (m.imports.has(name)) return lookupImport(m, name, seen);
  for (const r of m.reexports) {
    if (r.as !== name) continue;
    if (!r.from) return lookupExport(m, r.name, seen);
    const p = resolveSpecifier(r.from, m.path);
    return p ? lookupExport(loadModule(p), r.name, seen) : { external: r.from, name: r.name };
  }
  for (const s of m.stars) {
    const p = resolveSpecifier(s, m.path);
    if (p) { const r = lookupExport(loadModule(p), name, seen); if (r) return r; }
  }
  return null;
}
export function lookupImport(m, name, seen) {
  const im = m.imports.get(name);
  if (!im) return null;
  const p = resolveSpecifier(im.from, m.path);
  if (!p) return { external: im.from, name: im.name };
  if (im.name === '*') return { namespace: loadModule(p) };
  return lookupExport(loadModule(p), im.name, seen) || { external: im.from, name: im.name };
}
// find a function-like node by contract key: 'fn', 'Class.method', 'Class.constructor', 'Class.static'
export function findFunction(m, key) {
  if (key.includes('.')) {
    const [c, f] = key.split('.');
    const d = m.decls.get(c);
    if (!d || d.kind !== 'class') return null;
    for (const mem of d.node.members) {
      if (f === 'constructor' && ts.isConstructorDeclaration(mem) && mem.body) return { node: mem, cls: d.node, module: m };
      if ((ts.isMethodDeclaration(mem) || ts.isGetAccessor(mem)) && mem.body && mem.name.getText() === f) return { node: mem, cls: d.node, module: m, isStatic: isStatic(mem) };
      if (ts.isPropertyDeclaration(mem) && mem.name.getText() === f && mem.initializer && (ts.isArrowFunction(mem.initializer) || ts.isFunctionExpression(mem.initializer))) return { node: mem.initializer, cls: d.node, module: m, isStatic: isStatic(mem) };
    }
    if (f === 'constructor') return { node: null, cls: d.node, module: m };
    return null;
  }
  const d = m.decls.get(key);
  if (!d) return null;
  if (d.kind === 'fn') return { node: d.node, module: m };
  if (d.kind === 'var' && d.node.initializer) {
    let e = d.node.initializer;
    while (ts.isAsExpression(e) || ts.isParenthesizedExpression(e)) e = e.expression;
    if (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) return { node: e, module: m };
  }
  return null;
}
export const isStatic = (n) => !!n.modifiers?.some((x) => x.kind === SK.StaticKeyword);
export const isAsync = (n) => !!n.modifiers?.some((x) => x.kind === SK.AsyncKeyword);

// ------------------------------------------------------------------ declared types
// resolved: {k:'str'|'num'|'bool'|'undef'|'null'|'any'|'fn'|'lit'|'arr'|'rec'|'obj'|'union'|'cls'|'map'|'set'|'promise'|'ext'|'tuple'}
const ANY = { k: 'any' };
export const anyType = ANY;
const typeMemo = new Map();
export function resolveType(node, m, env) {
  if (!node) return ANY;
  if (!env || env.size === 0) {
    const c = typeMemo.get(node);
    if (c) return c;
    const r = resolveType0(node, m, new Map());
    typeMemo.set(node, r);
    return r;
  }
  return resolveType0(node, m, env);
}
function resolveType0(node, m, env) {
  switch (node.kind) {
    case SK.StringKeyword: case SK.TemplateLiteralType: return { k: 'str' };
    case SK.NumberKeyword: return { k: 'num' };
    case SK.BooleanKeyword: return { k: 'bool' };
    case SK.UndefinedKeyword: case SK.VoidKeyword: return { k: 'undef' };
    case SK.NullKeyword: return { k: 'null' };
    case SK.LiteralType: {
      const l = node.literal;
      if (l.kind === SK.NullKeyword) return { k: 'null' };
      if (ts.isStringLiteral(l)) return { k: 'lit', v: l.text };
      if (l.kind === SK.TrueKeyword || l.kind === SK.FalseKeyword) return { k: 'bool' };
      if (ts.isNumericLiteral(l) || ts.isPrefixUnaryExpression(l)) return { k: 'num' };
      return ANY;
    }
    case SK.ArrayType: return { k: 'arr', el: () => resolveType(node.elementType, m, env) };
    case SK.TupleType: return { k: 'arr', el: () => ANY, tuple: node.elements.map((e) => () => resolveType(ts.isNamedTupleMember(e) ? e.type : e, m, env)) };
    case SK.ParenthesizedType: return resolveType(node.type, m, env);
    case SK.TypeOperator: return node.operator === SK.ReadonlyKeyword ? resolveType(node.type, m, env) : node.operator === SK.KeyOfKeyword ? { k: 'str' } : ANY;
    case SK.FunctionType: return { k: 'fn', node, m };
    case SK.UnionType: return union(node.types.map((t) => resolveType(t, m, env)));
    case SK.IntersectionType: return { k: 'obj', parts: node.types.map((t) => resolveType(t, m, env)) };
    case SK.TypeLiteral: return objType(node.members, m, env, null);
    case SK.IndexedAccessType: return ANY;
    case SK.TypePredicate: return { k: 'bool' };
    case SK.TypeReference: {
      const name = node.typeName.getText();
      const args = (node.typeArguments || []).map((a) => () => resolveType(a, m, env));
      if (env.has(name)) return env.get(name)();
      return namedType(name, args, m);
    }
    case SK.ExpressionWithTypeArguments: return namedType(node.expression.getText(), (node.typeArguments || []).map((a) => () => resolveType(a, m, env)), m);
    default: return ANY;
  }
}
function union(ts_) {
  const out = [];
  for (const t of ts_) if (t.k === 'any') return ANY; else if (t.k === 'union') out.push(...t.types); else out.push(t);
  return out.length === 1 ? out[0] : { k: 'union', types: out };
}
export const unionType = union;
function namedType(name, args, m) {
  let found = m.types.get(name) ? { module: m, type: m.types.get(name) } : null;
  if (!found && m.imports.has(name)) {
    const r = lookupImport(m, name, new Set());
    if (r && r.decl && r.decl.kind === 'class') found = { module: r.module, type: r.decl.node };
    else if (r && r.decl && r.decl.kind === 'enum') found = { module: r.module, type: r.decl.node };
    else if (r && r.type) found = r;
    else return { k: 'ext', name };
  }
  if (found) {
    const n = found.type, fm = found.module;
    if (ts.isEnumDeclaration(n)) return n.members.every((x) => !x.initializer || ts.isStringLiteral(x.initializer)) && n.members.some((x) => x.initializer && ts.isStringLiteral(x.initializer)) ? { k: 'str', enum: n.members.map((x) => x.initializer?.text) } : { k: 'num' };
    if (ts.isClassDeclaration(n)) return { k: 'cls', name, decl: n, m: fm, env: args.length ? new Map((n.typeParameters || []).map((p, i) => [p.name.text, args[i] || (() => ANY)])) : undefined };
    const env = new Map();
    (n.typeParameters || []).forEach((p, i) => env.set(p.name.text, args[i] || (() => ANY)));
    if (ts.isTypeAliasDeclaration(n)) { const t = resolveType(n.type, fm, env); if (ts.isTypeLiteralNode(n.type) && t.k === 'obj') t.name = name; return t; }
    return ifaceType(n, fm, env, name);
  }
  switch (name) {
    case 'Record': return { k: 'rec', val: args[1] || (() => ANY) };
    case 'Array': case 'ReadonlyArray': return { k: 'arr', el: args[0] || (() => ANY) };
    case 'Map': return { k: 'map', key: args[0], val: args[1] };
    case 'Set': return { k: 'set', el: args[0] };
    case 'Promise': return { k: 'promise', el: args[0] };
    case 'Partial': { const t = args[0](); return { k: 'obj', partial: t, props: null }; }
    case 'Readonly': case 'Required': case 'NonNullable': case 'Omit': case 'Pick': return args[0] ? args[0]() : ANY;
    case 'unknown': case 'any': return ANY;
    case 'Uint8Array': return { k: 'bytes' };
    case 'Function': return { k: 'fn' };
    case 'ReturnType': case 'Parameters': case 'Extract': case 'Exclude': case 'ConstructorParameters': return ANY;
    default: if (/^[A-Z]$/.test(name)) return ANY; // an unbound type parameter
      return { k: 'ext', name };
  }
}
function objType(members, m, env, name) {
  const props = new Map();
  let index = null, service = false;
  for (const x of members) {
    if (ts.isPropertySignature(x)) {
      props.set(x.name.text ?? x.name.getText(), { node: x, optional: !!x.questionToken, type: () => resolveType(x.type, m, env) });
      if (x.type && x.type.kind === SK.FunctionType) service = true;
    } else if (ts.isMethodSignature(x)) {
      props.set(x.name.text ?? x.name.getText(), { node: x, optional: !!x.questionToken, method: x, m, type: () => ({ k: 'fn', node: x, m }) });
      service = true;
    } else if (ts.isIndexSignatureDeclaration(x)) index = () => resolveType(x.type, m, env);
    else if (ts.isCallSignatureDeclaration(x)) return { k: 'fn' };
  }
  return { k: 'obj', props, index, service, name };
}
function ifaceType(n, m, env, name) {
  const all = [...n.members, ...((n.merged || []).flatMap((x) => [...x.members]))];
  const t = objType(all, m, env, name);
  if (t.k !== 'obj') return t;
  for (const h of n.heritageClauses || []) {
    for (const b of h.types) {
      const bt = resolveType(b, m, env);
      if (bt.k === 'obj') (t.bases ||= []).push(bt);
      if (bt.service) t.service = true;
    }
  }
  return t;
}
// property type: {type, optional} or null when unknown
export function propType(t, name) {
  if (!t) return null;
  switch (t.k) {
    case 'obj': {
      if (t.partial) { const p = propType(t.partial, name); return p && { ...p, optional: true }; }
      if (t.parts) { for (const q of t.parts) { const p = propType(q, name); if (p) return p; } return null; }
      const p = t.props.get(name);
      if (p) return { type: p.type(), optional: p.optional, method: p.method, m: p.m };
      for (const b of t.bases || []) { const q = propType(b, name); if (q) return q; }
      if (t.index) return { type: t.index(), optional: true };
      return null;
    }
    case 'rec': return { type: t.val(), optional: true };
    case 'union': {
      const cands = t.types.filter((x) => x.k !== 'undef' && x.k !== 'null');
      if (cands.length === 1) return propType(cands[0], name);
      const ps = cands.map((c) => (c.k === 'str' || c.k === 'num' || c.k === 'bool' || c.k === 'lit' ? null : propType(c, name)));
      if (ps.every((p) => p)) return { type: union(ps.map((p) => p.type)), optional: ps.some((p) => p.optional) };
      return null;
    }
    default: return null;
  }
}
export function elemType(t) {
  if (!t) return ANY;
  if (t.k === 'arr') return t.el();
  if (t.k === 'set') return t.el ? t.el() : ANY;
  if (t.k === 'union') { const c = t.types.filter((x) => x.k === 'arr'); return c.length === 1 ? c[0].el() : ANY; }
  return ANY;
}
// types with function members that a contract treats as plain records of values
export const dataTypes = new Set();
export const isServiceType = (t) => !!t && ((t.k === 'obj' && !dataTypes.has(t.name) && (t.service || (t.parts || []).some(isServiceType) || (t.bases || []).some(isServiceType))) || (t.k === 'union' && t.types.some(isServiceType)));
