// node tools/manifest.mjs : writes MANIFEST.json from properties.jsonl and lib/meta.mjs
import { readFileSync, writeFileSync } from 'node:fs';
import { META, NA } from '../lib/meta.mjs';
const ids = readFileSync(new URL('../properties.jsonl', import.meta.url), 'utf8').trim().split('\n').map((l) => JSON.parse(l).id);
const checks = ids.filter((i) => META[i]).map((i) => ({ property: i, quick_cmd: `node check.mjs ${i}`, thorough_cmd: `node check.mjs ${i} thorough`, technique: META[i].technique || 'contract-based deductive verification of the TypeScript source (weakest-precondition style symbolic execution, obligations discharged by Z3), counterexamples replayed on the real code', level: META[i].level, level_note: `${META[i].note} Assumes: ${META[i].assumptions.join(' ')} Trusted: the obligation generator in tsv/, the TypeScript parser, Z3.` }));
const m = { version: 1, setup_cmd: 'node --version && z3-new --version', checks, not_applicable: ids.filter((i) => !META[i]).map((i) => ({ property: i, reason: NA[i] || 'No contract of this framework covers it yet.' })) };
writeFileSync(new URL('../MANIFEST.json', import.meta.url), JSON.stringify(m, null, 1) + '\n');
console.log(`${checks.length} checks, ${m.not_applicable.length} not applicable`);
