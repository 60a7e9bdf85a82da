// bundles source files of /repo (as they are now) into one module in a scratch directory and imports it
import { createRequire } from 'node:module';
import { mkdtempSync, rmSync, writeFileSync, existsSync } from 'node:fs';
import { tmpdir } from 'node:os';
import { join } from 'node:path';
import { pathToFileURL } from 'node:url';
export const REPO = process.env.TSV_REPO || '/repo';
const require = createRequire('/opt/veriftools/node/node_modules/');
const P = (p) => join(REPO, 'packages', p);
const STUBS = {
  'dom-mutator': `const mutations = []; const mk = (kind) => (selector, ...rest) => { const m = { kind, selector, rest, reverted: false }; mutations.push(m); globalThis.__domMutator && globalThis.__domMutator(m); return { revert() { m.reverted = true; globalThis.__domRevert && globalThis.__domRevert(m); } }; };
module.exports = { mutations, html: mk('html'), classes: mk('classes'), attribute: mk('attribute'), position: mk('position'), declarative: mk('declarative'), pauseGlobalObserver() {}, resumeGlobalObserver() {}, connectGlobalObserver() {}, disconnectGlobalObserver() {} };`,
};
const made = [];
export function cleanup() { for (const d of made.splice(0)) rmSync(d, { recursive: true, force: true }); }
process.on('exit', cleanup);
// spec: { exportName: 'packages-relative file' | [file, name] } ; files that do not exist are left out
// real: packages of @amplitude that are installed are used as they are, the rest is empty
export async function bundle(entry, { real = false } = {}) {
  const { build } = require('esbuild');
  const dir = mkdtempSync(join(tmpdir(), 'verif-'));
  made.push(dir);
  const out = join(dir, `bundle-${made.length}.mjs`);
  await build({
    stdin: { contents: entry(P, (f) => existsSync(P(f))), resolveDir: join(REPO, 'packages'), loader: 'ts' },
    bundle: true, format: 'esm', platform: 'browser', target: 'es2020', outfile: out, logLevel: 'silent', charset: 'utf8',
    mainFields: ['module', 'main'], nodePaths: [join(REPO, 'node_modules')], define: { 'process.env.NODE_ENV': '"production"' },
    plugins: [{ name: 'repo', setup(b) {
      const alias = { '@amplitude/experiment-core': 'experiment-core/src/index.ts', '@amplitude/analytics-connector': 'analytics-connector/src/index.ts', '@amplitude/experiment-js-client': 'experiment-browser/src/index.ts' };
      b.onResolve({ filter: /^@amplitude\// }, (a) => (alias[a.path] ? { path: P(alias[a.path]) } : real && !a.path.endsWith('/types') && existsSync(join(REPO, 'node_modules', a.path.split('/').slice(0, 2).join('/'), 'package.json')) ? undefined : { path: a.path, namespace: 'empty' }));
      b.onResolve({ filter: /^dom-mutator/ }, (a) => ({ path: 'dom-mutator', namespace: 'stub' }));
      b.onLoad({ filter: /.*/, namespace: 'stub' }, (a) => ({ contents: STUBS[a.path], loader: 'js' }));
      b.onLoad({ filter: /.*/, namespace: 'empty' }, () => ({ contents: 'module.exports = {};', loader: 'js' }));
    } }],
  });
  return import(pathToFileURL(out).href);
}
