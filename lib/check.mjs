// check.mjs <property> [--replay file] [--jobs n] [--cases n] [--no-build]
// Runs one property's workload in worker processes, judges what the monitors report, writes the evidence.
import { fork } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import crypto from 'node:crypto';
import { fileURLToPath } from 'node:url';
import { buildHarness, buildHarnessAsan, ROOT } from './build.mjs';
import { loadProp } from './props/index.mjs';
const here = path.dirname(fileURLToPath(import.meta.url));

const argv = process.argv.slice(2); const id = argv[0];
const opt = (n) => { const i = argv.indexOf(n); return i < 0 ? null : argv[i + 1]; };
const tier = process.env.VERIF_TIER === 'thorough' || argv.includes('--thorough') ? 'thorough' : 'quick';
const seed = Number(process.env.VERIF_SEED ?? 1) || 0;
const t0 = Date.now();
const out = (s) => process.stdout.write(s + '\n');

const prop = await loadProp(id);
const plan = { ...prop.plan[tier] };
if (opt('--cases')) plan.cases = +opt('--cases');
const jobs = +(opt('--jobs') ?? process.env.VERIF_JOBS ?? 8);
const evidenceDir = path.join(ROOT, 'evidence');
fs.mkdirSync(evidenceDir, { recursive: true });
const replayDir = path.join(evidenceDir, 'replay');
fs.mkdirSync(replayDir, { recursive: true });
for (const f of fs.readdirSync(replayDir)) if (f.startsWith(id + '-')) fs.rmSync(path.join(replayDir, f));

if (!argv.includes('--no-build')) {
  const bin = buildHarness();
  if (!bin) { out(`ERROR property=${id} the working tree does not build`); process.exit(3); }
  if (prop.asan && tier === 'thorough') { const a = buildHarnessAsan(); if (a) process.env.VP_ASAN = a; else out('  without AddressSanitizer: it does not build here'); }
  if (prop.build) { const ok = await prop.build(); if (!ok) { out(`ERROR property=${id} build`); process.exit(3); } }
}
const known = readKnown();
function readKnown() {
  const p = path.join(ROOT, 'known-findings.txt'); const l = [];
  if (fs.existsSync(p)) for (const s of fs.readFileSync(p, 'utf8').split('\n')) {
    const m = /^known: property=(\S+) case=(\S+) sig="([^"]*)" (.*)$/.exec(s);
    if (m && m[1] === id) l.push({ case: m[2], sig: m[3], what: m[4] });
  }
  return l;
}

// ---- replay of a single case
if (opt('--replay')) {
  const rec = JSON.parse(fs.readFileSync(opt('--replay'), 'utf8'));
  const r = await runCases([rec.case], 1, { tier: rec.tier, seed: rec.seed });
  out(JSON.stringify(r.results[0], null, 1));
  const bad = (r.results[0].violations ?? []).length > 0;
  out(bad ? `VIOLATION property=${id} replay=${opt('--replay')}` : 'not reproduced');
  process.exit(bad ? 1 : 0);
}

/** Runs case numbers over a pool; every case has a watchdog in the parent. */
function runCases(list, n, { tier: ti = tier, seed: se = seed, deadline = Infinity, onResult } = {}) {
  return new Promise((resolve) => {
    const results = []; let next = 0, live = 0, done = false; const total = list.length;
    const caseMs = plan.caseMs ?? 12000;
    const finish = () => { if (!done) { done = true; resolve({ results, notRun: total - next }); } };
    const spawnOne = () => {
      live++;
      const w = fork(path.join(here, 'worker.mjs'), [], { execArgv: ['--experimental-vm-modules', '--no-warnings', '--stack-size=3000', '--max-old-space-size=2500'], stdio: ['ignore', 'ignore', 'inherit', 'ipc'], serialization: 'advanced', env: { ...process.env, VP_PROP: id, VP_TIER: ti, VP_SEED: String(se) } });
      let cur = null, timer = null, over = false;
      const end = (why) => {
        if (over) return; over = true; clearTimeout(timer);
        try { w.kill('SIGKILL'); } catch {}
        if (cur !== null) { const r = { case: cur, status: 'inconclusive', why, violations: [] }; results.push(r); onResult?.(r); }
        cur = null; live--;
        if (next < total && Date.now() < deadline && !stop()) spawnOne(); else if (live === 0) finish();
      };
      const give = () => {
        if (next >= total || Date.now() > deadline || stop()) { over = true; clearTimeout(timer); try { w.send({ quit: true }); } catch {} setTimeout(() => { try { w.kill('SIGKILL'); } catch {} }, 500); live--; if (live === 0) finish(); return; }
        cur = list[next++]; timer = setTimeout(() => end('watchdog'), caseMs);
        try { w.send({ case: cur }); } catch { end('worker lost'); }
      };
      w.on('message', (m) => { if (m.ready) return give(); clearTimeout(timer); results.push(m); onResult?.(m); cur = null; give(); });
      w.on('exit', (c, s) => end(`worker exit ${c} ${s}`));
      w.on('error', (e) => end(String(e)));
    };
    const stop = () => stopNow;
    if (total === 0) return finish();
    for (let i = 0; i < Math.min(n, total); i++) spawnOne();
  });
}
let stopNow = false;

// ---- full run
const agg = { evals: 0, distinct: new Set(), counters: {}, features: {}, skips: {}, inconclusive: {}, inconclusiveCases: [], samples: [], violations: [] };
const add = (o, k, n = 1) => { o[k] = (o[k] ?? 0) + n; };
const total = plan.cases;
const deadline = t0 + (plan.maxMs ?? (tier === 'quick' ? 420000 : 3600000));
const pre = prop.fixedCases ?? 0; // negative numbers: fixed cases which always run first
const list = []; for (let i = 0; i < pre; i++) list.push(-1 - i); for (let i = 0; i < total; i++) list.push(i);
let run1;
{
  run1 = await runCases(list, jobs, { deadline, onResult(r) {
    if (r.status === 'inconclusive' || r.status === 'error') { add(agg.inconclusive, r.why ?? '?'); if (agg.inconclusiveCases.length < 20) agg.inconclusiveCases.push(r.case); return; }
    agg.evals += r.evals ?? 0;
    for (const k of r.keys ?? []) agg.distinct.add(crypto.createHash('md5').update(k).digest('base64').slice(0, 12));
    for (const [k, n] of Object.entries(r.counters ?? {})) add(agg.counters, k, n);
    for (const k of r.features ?? []) add(agg.features, k);
    for (const [k, n] of Object.entries(r.skips ?? {})) add(agg.skips, k, n);
    if (r.sample && agg.samples.length < 6 && (agg.samples.length < 2 || r.case % 7 === 0)) agg.samples.push(r.sample);
    for (const v of r.violations ?? []) agg.violations.push({ ...v, case: r.case });
    if (agg.violations.length > 60) stopNow = true;
  } });
}
stopNow = false;
// ---- judge: a violation counts if a fresh worker reports it again
const isKnown = (v) => known.find((k) => String(v.case) === k.case && v.sig === k.sig) ?? known.find((k) => v.knownCase === k.case && v.sig === k.sig);
const knownSeen = new Map(); const fresh = [];
for (const v of agg.violations) { const k = isKnown(v); if (k) knownSeen.set(k, v); else fresh.push(v); }
const bySig = new Map(); for (const v of fresh) { const l = bySig.get(v.sig) ?? bySig.set(v.sig, []).get(v.sig); if (l.length < 3) l.push(v); }
const confirmed = [];
let unstable = 0;
for (const [sig, l] of [...bySig].slice(0, 8)) {
  const r = await runCases([...new Set(l.map((v) => v.case))], Math.min(jobs, 3));
  const ok = l.filter((v) => r.results.some((q) => q.case === v.case && (q.violations ?? []).some((z) => z.sig === sig)));
  if (ok.length) confirmed.push({ sig, n: fresh.filter((v) => v.sig === sig).length, v: ok[0] }); else if (prop.nondeterministic) confirmed.push({ sig, n: l.length, v: l[0] }); else unstable++;
}
let nrep = 0;
for (const c of confirmed) {
  const f = path.join(replayDir, `${id}-${++nrep}.json`);
  fs.writeFileSync(f, JSON.stringify({ property: id, tier, seed, case: c.v.case, sig: c.sig, occurrences: c.n, detail: c.v.detail, input: c.v.input }, null, 1));
  c.file = f;
}
const inconc = Object.values(agg.inconclusive).reduce((a, b) => a + b, 0);
const distinct = agg.distinct.size;
const evidence = {
  property: id, tier, seed, level: prop.level ?? 'exploration',
  coverage: {
    evaluations: agg.evals, distinct_nontrivial: distinct, rule: prop.rule, samples: agg.samples.length ? agg.samples : ['none'],
    observed: agg.counters, features_reached: Object.keys(agg.features).length, features: agg.features, skipped: agg.skips, inconclusive: agg.inconclusive, inconclusive_cases: agg.inconclusiveCases,
    cases_planned: list.length, cases_not_run: run1.notRun, unstable_reports: unstable,
    known_findings: [...knownSeen.keys()].map((k) => k.what),
  },
  assumptions: prop.assumptions ?? [], wall_s: Math.round((Date.now() - t0) / 100) / 10, violations: confirmed.length,
};
fs.writeFileSync(path.join(evidenceDir, id + '.json'), JSON.stringify(evidence, null, 1) + '\n');
for (const k of knownSeen.keys()) out(`KNOWN-FINDING: property=${id} ${k.what}`);
out(`${id} ${tier}: evaluations=${agg.evals} distinct=${distinct} inconclusive=${inconc} observed=${JSON.stringify(agg.counters)} skipped=${JSON.stringify(agg.skips)} wall=${evidence.wall_s}s`);
if (inconc) out(`  inconclusive: ${JSON.stringify(agg.inconclusive)}`);
for (const c of confirmed) { out(`  ${c.sig} (${c.n}x) e.g. ${JSON.stringify(c.v.detail).slice(0, 600)}`); out(`VIOLATION property=${id} replay=${c.file}`); }
if (confirmed.length) process.exit(1);
if (distinct < (plan.min ?? Math.max(1, Math.floor(total / 4)))) { out(`ERROR property=${id} too little was observed (${distinct} distinct non-trivial cases)`); process.exit(4); }
process.exit(0);
