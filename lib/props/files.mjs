// C10: several files in one realm. C23: coverage of several realms merged.
import vm from 'node:vm';
import { Rng, hash32 } from '../rng.mjs';
import { project, driver, runAll, readCov, analyzeAll } from '../files.mjs';
import { compareCounts } from '../evalprog.mjs';
import { totals, judgeTotals } from './oxide.mjs';
import { hintPaths } from './hints.mjs';
import { near, pathish, variableish } from '../text.mjs';

const ODD_PATHS = ['', '0', ' ', 'constructor', 'toString', 'hasOwnProperty', '/a"b.js', "/a'b.js", '/a`${1}`.js', 'C:\\u\\x.js', '/é/日本.js', '/😀.js', '/line\nbreak.js', '/ls\u2028ps\u2029.js', '/tab\t.js', '/end\\', '/*/x.js', '/a*/b.js', '/</script>.js', '\0', 'unknown.js', 'file:///x y%20z.js', '/' + 'long/'.repeat(60) + 'x.js', '/a.js?x=1#y', '//', '.', '\ufeffbom.js', '\u0301combining', '\\\\srv\\share\\f.js', 'length', '$hash', 'hash', 'path'];
const VARS = ['__coverage__', '__coverage__', '__coverage__', '__cov__', 'cov var', 'a"b', "it's", 'é', '\\', 'x\ny', '0', '$', '__VP_COVERAGE__', '*/', '😀', 'hash', 'global'];
const OTHER = { path: '/other.js', statementMap: { 0: { start: { line: 1, column: 0 }, end: { line: 1, column: 5 } } }, fnMap: {}, branchMap: {}, s: { 0: 3 }, f: {}, b: {}, hash: 'abc', all: false };
const inst = (h, f, options, extra = {}) => h.call({ op: 'instrument', code: f.code, filename: f.path, source_type: f.kind, options, ...extra });

/** files with next to nothing to count, or nothing at all */
const bareFile = (r, { kind, k }) => r.pick(['', '\n', '// only a comment', '/* c */', '"use strict";', '"use strict"\n', ';', '{}', `function bare${k}() {}\nfunction bare${k}b() { return 1; }\n`, `function bare${k}() {}\n"no directive";`, `var bare${k};`, `let bare${k};`, `class Bare${k} {}`, `bare${k}: ;`, ...(kind === 'module' ? ['export {};', 'export {};\nexport {};', `export function bare${k}() {}`, `export default function () {}`, `function bare${k}() {}\nexport { bare${k} };\nfunction bare${k}b() {}`, `export {};\nfunction bare${k}() {}`, `export let bare${k};`, `export class Bare${k} {}`] : [])]);

async function sequence(r, ctx, seedText, i) {
  const n = r.range(1, 4); const covVar = r.p(0.6) ? r.pick(VARS) : variableish(r); const rl = r.p(0.2);
  const files = project(r, n, { seedText, avoid: [covVar, ...(rl ? ['Object'] : [])], size: r.pick([10, 18, 30]), kinds: r.pick([['module'], ['commonjs'], ['script'], ['module', 'commonjs', 'script']]) });
  if (n > 1 && r.p(0.25)) { const k = r.int(n - 1); if (files[k].kind !== 'script' && files[k + 1].kind !== 'script') { files[k + 1].code = files[k].code; files[k + 1].kind = files[k].kind; } } // same text, other path
  for (const f of files) if (r.p(0.08)) f.code = bareFile(r, f);
  const paths = r.shuffle(ODD_PATHS); const used = new Set();
  files.forEach((f, k) => { f.path = r.p(0.4) ? paths[k] : r.p(0.6) ? pathish(r) : `/t/f${k}.js`; if (r.p(0.2) && k) f.path = near(r, files[r.int(k)].path); if (f.path === '__proto__') f.path = '/proto'; while (used.has(f.path)) f.path += 'x'; used.add(f.path); });
  let A; try { A = analyzeAll(files, { reportLogic: rl }); } catch (e) { return { skips: { 'not valid': 1 } }; }
  const drive = files.map(() => driver(r, n)); const J = JSON.stringify;
  const pre = r.weighted([[5, 'none'], [2, 'empty'], [2, 'other'], [1, 'null-proto'], [2, 'stale']]);
  const stale = r.pick(files).path;
  const key = pre === 'stale' ? stale : OTHER.path;
  const before = pre === 'none' ? '' : `globalThis[${J(covVar)}] = ${pre === 'null-proto' ? 'Object.create(null)' : '{}'}; globalThis[${J('keep')}] = globalThis[${J(covVar)}]; ${pre === 'empty' ? '' : `globalThis[${J(covVar)}][${J(key)}] = ${J({ ...OTHER, path: key })};`}; Object.defineProperty(globalThis, 'keep', {enumerable: false});`;
  const o = { covVar, settleAll: r.p(0.7) };
  const r0 = await runAll(files, files.map((f) => f.code), drive, o);
  if (r0.syntax || r0.timeout || r0.fuelOut) return { skips: { 'not valid or not terminating': 1 } };
  const r1 = await runAll(files, A.list.map((a) => a.probed), drive, { ...o, nprobes: A.nprobes });
  if (r1.syntax || r1.snapshot !== r0.snapshot) return { skips: { 'probes interfere': 1 } };
  const options = { ...(covVar === '__coverage__' && r.p(0.5) ? {} : { coverageVariable: covVar }), ...(rl ? { reportLogic: true } : {}), ...(r.p(0.3) ? { debugInitialCoverageComment: true } : {}) };
  const xs = []; for (const f of files) xs.push(await inst(ctx.h, f, options));
  const bad = xs.find((x) => !x.ok); if (bad) return bad.panic || bad.crash ? { evals: 1, violations: [{ sig: 'panic', detail: bad, input: { files } }] } : { skips: { swc: 1 } };
  const r2 = await runAll(files, xs.map((x) => x.code), drive, { ...o, before });
  const vs = []; const V = (sig, detail) => vs.push({ sig, detail, input: { files: files.map(({ code, kind, path }) => ({ code, kind, path })), covVar, options, pre } });
  if (r2.timeout) return { skips: { slow: 1 } };
  if (r2.syntax || r2.snapshot !== r0.snapshot) {
    const ps = []; for (const f of files) ps.push(await ctx.h.call({ op: 'plain', code: f.code, filename: f.path, source_type: f.kind }));
    const rp = await runAll(files, ps.map((p) => p.code ?? ''), drive, o);
    if (rp.syntax || rp.snapshot !== r0.snapshot) return { skips: { 'swc printer': 1 } };
    if (r2.syntax) { V('output does not parse', r2.syntax); return { evals: 1, violations: vs }; }
    let j = 0; while (j < r0.trace.length && r0.trace[j] === r2.trace[j]) j++;
    V('behaviour', { at: j, before: r0.trace[j], after: r2.trace[j], globals: J(r0.globals) === J(r2.globals) ? undefined : [r0.globals.join(' ').slice(0, 300), r2.globals.join(' ').slice(0, 300)] });
  }
  const cov = readCov(r2.realm, covVar); let checked = 0, events = 0, entries = 0;
  if (!cov) V('no coverage object', {});
  else {
    const want = new Set(files.map((f) => f.path)); if (['other', 'null-proto'].includes(pre)) want.add(OTHER.path);
    for (const [p, c] of cov) {
      if (!want.delete(p)) { V('entry of no file', { p }); continue; }
      const k = files.findIndex((f) => f.path === p);
      if (k < 0) { if (J(c) !== J({ ...OTHER, path: p })) V('foreign entry changed', { c }); continue; }
      entries++;
      if (c.path !== p) V('path of the entry', { key: p, path: c.path });
      if (typeof c.hash !== 'string' || !c.hash) V('no hash', { c });
      const q = compareCounts(A.list[k], r1.hits, c, files[k].code, { reportLogic: rl }); checked += q.checked; events += q.events;
      const dev = q.dev.filter((d) => ['s', 'f', 'b', 'bT'].includes(d.cat)); if (dev.length) V('counts of file: ' + dev[0].sig, { file: k, ...dev[0].detail, n: dev.length });
    }
    for (const p of want) V('no entry', { p, done: r2.done });
    if (pre !== 'none' && !vm.runInContext(`keep === globalThis[${J(covVar)}]`, r2.realm.context)) V('coverage object replaced', {});
  }
  return { evals: 1, keys: checked ? [files.map((f) => f.path + f.code).join('\0')] : [], features: [...files.map((f) => f.kind), 'pre ' + pre, 'var ' + J(covVar), ...files.map((f) => 'path ' + J(f.path).slice(0, 20))],
    counters: { realms: 1, files: n, entries, counters_checked: checked, hits_observed: events, driver_calls: drive.join().split('$G').length - 1, trace_events: r0.trace.length },
    sample: { case: i, covVar, pre, files: files.map((f) => [f.kind, f.path.slice(0, 60), f.code.slice(0, 100)]) }, violations: vs.slice(0, 4) };
}
async function fixed(i, ctx) {
  if (i === -1) {
    const f = { code: 'export default null.x;\n', path: '/k.js', kind: 'module' }; const x = await inst(ctx.h, f, {});
    const q = await runAll([f], [x.code], [''], { covVar: '__coverage__' }); const c = readCov(q.realm, '__coverage__');
    return { evals: 1, violations: c && c.length === 1 ? [] : [{ sig: 'first item of a module throws', detail: { code: f.code }, input: f }] };
  }
  if (i === -3) {
    const f = { code: '(function () { let Object = null; $t(1, {a: 1} || 2); })();\n', path: '/k.js', kind: 'script' }; const x = await inst(ctx.h, f, { reportLogic: true });
    const q = await runAll([f], [x.code], [''], { covVar: '__coverage__' });
    return { evals: 1, violations: q.done[0] === 'normal' ? [] : [{ sig: 'shadowed Object with reportLogic', detail: { code: f.code, done: q.done }, input: f }] };
  }
  const f = { code: 'var a = 1;\n', path: '/k.js', kind: 'script' }; const x = await inst(ctx.h, f, {});
  const q = await runAll([f, f], [x.code, x.code], ['', ''], { covVar: '__coverage__' }); const c = readCov(q.realm, '__coverage__');
  return { evals: 1, violations: c?.[0]?.[1]?.s?.[0] === 2 ? [] : [{ sig: 'evaluated twice', detail: { code: f.code, s: c?.[0]?.[1]?.s }, input: f }] };
}

// ---- C23
/** parallel workers: the same files, loaded in part, in any order, by hosts which answer differently */
async function workers(r, ctx, seedText, i) {
  const n = r.range(1, 3); const rl = r.p(0.35); const J = JSON.stringify;
  const files = project(r, n, { seedText, size: r.pick([14, 26, 40]), kinds: ['module', 'commonjs'], shadow: 0 });
  files.forEach((f, k) => { f.path = r.p(0.3) ? ODD_PATHS[(i + k * 7) % ODD_PATHS.length] + (k ? k : '') : `/t/f${k}.js`; });
  const hinted = r.p(0.3); if (hinted) { const rate = r.pick([0.3, 0.7, 1]); try { for (const f of files) Object.assign(f, hintPaths(r, f.code, f.kind, rate)); } catch { return { skips: { 'not valid': 1 } }; } }
  let A; try { A = analyzeAll(files, { reportLogic: rl }); } catch (e) { return { skips: { 'not valid': 1 } }; }
  const options = { ...(rl ? { reportLogic: true } : {}), debugInitialCoverageComment: true };
  const xs = []; for (const f of files) xs.push(await inst(ctx.h, f, options));
  const badx = xs.find((x) => !x.ok); if (badx) return badx.panic || badx.crash ? { evals: 1, violations: [{ sig: 'panic', detail: badx, input: { files } }] } : { skips: { swc: 1 } };
  const sum = new Float64Array(A.nprobes); const covs = []; const loaded = new Set(); const K = r.range(2, 5); let events = 0; const shapes = new Set();
  for (let w = 0; w < K; w++) {
    const order = r.shuffle(files.map((_, k) => k)).filter(() => r.p(0.85)); if (!order.length) order.push(r.int(n));
    const vary = w === 0 ? null : (id) => { const h = hash32(`${seedText}/${w}/${id}`); return h % 3 === 0 ? (h >>> 8) % 7 : -1; };
    const sub = order.map((k) => files[k]), drive = order.map(() => driver(r, n)); const o = { covVar: '__coverage__', vary };
    const r1 = await runAll(sub, order.map((k) => A.list[k].probed), drive, { ...o, nprobes: A.nprobes });
    if (r1.syntax || r1.timeout || r1.fuelOut) return { skips: { 'not valid or not terminating': 1 } };
    const r2 = await runAll(sub, order.map((k) => xs[k].code), drive, o);
    if (r2.syntax || r2.timeout || r2.snapshot !== r1.snapshot) return { skips: { 'runs differ (C01)': 1 } };
    const cov = readCov(r2.realm, '__coverage__'); if (!cov) return { skips: { 'no coverage (C10)': 1 } };
    r1.hits.forEach((x, k) => { sum[k] += x; }); for (const [p] of cov) loaded.add(p); covs.push(cov); shapes.add(J(cov.map(([p, c]) => [p, c.s])));
  }
  // collected, serialised, read and merged by the library
  const steps = []; const maps = []; const vs = []; const V = (sig, detail) => { if (vs.length < 4) vs.push({ sig, detail, input: { files: files.map(({ code, kind, path }) => ({ code, kind, path })), covs, options } }); };
  const all = r.p(0.4); let q = 0;
  covs.forEach((cov, w) => {
    const id = 'm' + w; const ids = [];
    for (const [p, c] of cov) { steps.push({ do: 'read', id: `c${++q}`, json: J(c) }); ids.push(`c${q}`); }
    if (all && r.p(0.6)) files.forEach((f, k) => { if (!cov.some(([p]) => p === f.path)) { steps.push({ do: 'read', id: `c${++q}`, json: J({ ...JSON.parse(xs[k].cov_comments[0]), all: true }) }); ids.push(`c${q}`); } });
    if (r.p(0.5)) steps.push({ do: 'map', id, from: ids }); else { steps.push({ do: 'map', id }); for (const f of r.shuffle(ids)) steps.push({ do: 'map_add', id, file: f }); }
    maps.push(id);
  });
  const left = r.shuffle(maps); while (left.length > 1) { const b = left.splice(r.int(left.length - 1) + 1, 1)[0]; const a = r.p(0.5) ? left[0] : r.pick(left); steps.push({ do: 'map_merge', id: a, from: b }); }
  steps.push({ do: 'map_show', id: left[0], probe: files.map((f) => f.path) });
  const z = await ctx.h.call({ op: 'oxide', steps });
  if (!z.ok) { V('panic', { panic: z.panic ?? z.crash, at: steps[z.at] }); return { evals: 1, violations: vs }; }
  const err = z.results.findIndex((x) => x?.error); if (err >= 0) { V('not accepted', { step: steps[err], error: z.results[err].error }); return { evals: 1, violations: vs }; }
  const m = z.results.at(-1); let checked = 0; const tot = [0, 1, 2, 3, 4].map(() => [0, 0]);
  m.files.forEach((p, j) => {
    const k = files.findIndex((f) => f.path === p); if (k < 0) return V('file nobody loaded', { p });
    const c = m.entries[j] && JSON.parse(m.entries[j]); if (!c || c.path !== p) return V('entry', { p, got: c?.path });
    if (c.all && loaded.has(p)) V('placeholder wins over real coverage', { p });
    const dev = compareCounts(A.list[k], sum, c, files[k].code, { reportLogic: rl }); checked += dev.checked; events += dev.events;
    const l = dev.dev.filter((d) => ['s', 'f', 'b', 'bT'].includes(d.cat)); if (l.length) V('sum of the runs: ' + l[0].sig, { p, ...l[0].detail, n: l.length });
    totals(c).forEach((t, x) => { if (t) { tot[x][0] += t[0]; tot[x][1] += t[1]; } });
  });
  for (const p of loaded) if (!m.files.includes(p)) V('file lost', { p });
  judgeTotals(m.summary.totals, [...tot.slice(0, 4), rl ? tot[4] : null], 'merged', V);
  return { evals: 1, keys: checked ? [files.map((f) => f.code).join('\0')] : [], features: ['workers ' + K, 'files ' + n, rl ? 'reportLogic' : 'plain', all ? 'placeholders' : ''], counters: { merges: K - 1, realms: K, distinct_runs: shapes.size, counters_checked: checked, hits_observed: events, operations: steps.length },
    sample: { case: i, workers: K, files: files.map((f) => f.path.slice(0, 50)), totals: m.summary.totals }, violations: vs };
}
const ASSUME = ['V8 executes programs correctly', 'no file has the path __proto__, and coverageVariable is not the name of a predefined global'];
export const files = {
  C10: {
    level: 'exploration', technique: 'monitor of the realm: coverage object after loading several instrumented files which call each other, against per-file reference counts of independently probed originals',
    rule: 'Seeded random projects of one to four files (modules, CommonJS, scripts) with hostile paths, coverage variable names, shadowed names and coverage objects already present, loaded into one realm and calling each other; non-trivial: all files ran and counters of at least one were checked; distinct by paths and texts.',
    assumptions: ASSUME, fixedCases: 3, plan: { quick: { cases: 2600, maxMs: 400000 }, thorough: { cases: 30000, maxMs: 3000000 } },
    async run(i, ctx) { if (i < 0) return fixed(i, ctx); const t = `${ctx.seed}/C10/${i}`; return sequence(new Rng(t), ctx, t, i); },
  },
  C23: {
    level: 'exploration', technique: 'end to end monitor: coverage of several instrumented runs with different hosts, read and merged by istanbul-oxide, against the sum of reference counts of independently probed runs',
    rule: 'Seeded random projects of one to three files run in two to five realms whose hosts answer differently, with files left out and placeholders added, merged in random order and grouping; non-trivial: all runs behaved as the original and merged counters were checked; distinct by text.',
    assumptions: [...ASSUME, 'hits stay below 2^32'], plan: { quick: { cases: 1500, maxMs: 400000 }, thorough: { cases: 20000, maxMs: 3000000 } },
    async run(i, ctx) { const t = `${ctx.seed}/C23/${i}`; return workers(new Rng(t), ctx, t, i); },
  },
};
