// Writes MANIFEST.json from the properties that have a check.
import fs from 'node:fs';
import { ids, loadProp } from '../lib/props/index.mjs';
const props = fs.readFileSync(new URL('../properties.jsonl', import.meta.url), 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const have = new Set(ids());
const checks = [];
for (const p of props) if (have.has(p.id)) {
  const q = await loadProp(p.id);
  checks.push({ property: p.id, quick_cmd: `bin/check ${p.id}`, thorough_cmd: `VERIF_TIER=thorough bin/check ${p.id}`, evidence_file: `evidence/${p.id}.json`,
    technique: 'runtime monitoring: ' + (q.technique ?? 'traces and counters of executed programs against an independently probed reference'), level: q.level ?? 'exploration', level_note: q.note ?? 'Held on the executions explored (numbers in the evidence file); nothing is claimed about programs not generated. Trusts V8, acorn and the reference model in lib/ref.mjs.' });
}
const na = props.filter((p) => !have.has(p.id)).map((p) => ({ property: p.id, reason: 'check not built yet' }));
const m = { version: 1, setup_cmd: 'bin/setup', checks, not_applicable: na };
if (fs.existsSync(new URL('../tools/hooks.json', import.meta.url))) m.hooks = JSON.parse(fs.readFileSync(new URL('../tools/hooks.json', import.meta.url)));
fs.writeFileSync(new URL('../MANIFEST.json', import.meta.url), JSON.stringify(m, null, 1) + '\n');
console.log(checks.length, 'checks', na.length, 'not applicable');
