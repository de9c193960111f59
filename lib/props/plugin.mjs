// C16: the real plugin, compiled to WebAssembly and hosted as swc hosts it.
import path from 'node:path';
import { Rng } from '../rng.mjs';
import { generate } from '../gen.mjs';
import { decorate } from '../tsgen.mjs';
import { PluginHost } from '../plugin.mjs';
import { buildPlugin, PLUGIN } from '../build.mjs';
import { bigMap } from './data.mjs';

const J = JSON.stringify;
let host = null;
const getHost = () => { if (!host) { host = new PluginHost(process.env.VP_PLUGIN || PLUGIN); process.on('exit', () => host.close()); } return host; };

// ---- programs
function program(r, seed) {
  const source_type = r.pick(['script', 'module', 'module', 'commonjs']); const syntax = r.weighted([[6, 'es'], [2, 'ts'], [1.5, 'jsx']]);
  const st = source_type === 'module' ? 'module' : 'script'; let code = generate(seed, { sourceType: st, size: r.pick([4, 10, 20, 40]), directives: r.p(0.3), jsx: syntax === 'jsx', astral: true }).code;
  if (syntax === 'ts') { try { code = decorate(new Rng(seed, "ts"), code, st).ts; } catch {} }
  const words = ['/* istanbul ignore next */', '/* istanbul ignore if */', '/* c */', '// l\n', '/* istanbul ignore else */', '/*! legal */', '/**doc*/'];
  if (r.p(0.5)) { const ls = code.split('\n'); for (let k = r.int(4); k >= 0; k--) { const at = r.int(ls.length); if (!/`|\/\*|\*\//.test(ls.slice(0, at + 1).join(''))) ls[at] = r.pick(words) + ls[at]; } code = ls.join('\n'); }
  if (r.p(0.04)) code = '/* istanbul ignore file */\n' + code;
  if (r.p(0.1)) code = code.replace(/\n/g, r.pick(['\r\n', '\r']));
  return { code, source_type, syntax, strip: syntax === 'ts' ? r.pick(['after', 'before']) : undefined, react: syntax === 'jsx', pad: r.p(0.3) ? r.pick([1, 7, 4096]) : undefined, enable_comments: r.p(0.94) };
}
const NAMES = ['/t/a.js', 'src/a.js', 'a.js', '/t/with space/é日.js', '/t/"q".js', "/t/it's.js", '/t/`b${x}.js', 'C:\\w\\x.ts', '\\\\srv\\share\\x.js', '/t/line\\nbreak.js', '/t/😀.tsx', '', '<anon>', '/t/*/x.js', '/a/*/b', 'file:///t/x.mjs?q=1#h', '__proto__x', '/t/\u2028.js', '/t/\n.js'];

// ---- exclusions: names and globs which do or do not match them, with an oracle of its own
const PARTS = ['src', 'test', 'lib', 'a', 'b', 'node_modules', '@scope', 'my-app', 'x.y', 'é', '__tests__', 'A', 'with space', 'v1', '日本'];
const FILES = ['a.js', 'index.test.ts', 'x.spec.js', 'b.tsx', 'index.js', '.hidden.js', 'é.mjs', 'A.js', 'noext', 'a.b.c.js'];
/** glob (with slashes) to regular expression; only the forms generated here */
export function globRe(g) {
  let re = '';
  const comps = g.split('/');
  comps.forEach((c, k) => {
    const last = k === comps.length - 1;
    if (c === '**') { re += k === 0 ? (last ? '.*' : '(?:.*/)?') : last ? '(?:/.*)?' : '(?:/.*)?'; return; }
    const prev = comps[k - 1];
    if (k > 0 && !(prev === '**' && k === 1)) re += '/';
    for (let i = 0; i < c.length; i++) {
      const ch = c[i];
      if (ch === '*') re += '[^/]*'; else if (ch === '?') re += '[^/]';
      else if (ch === '{') { const e = c.indexOf('}', i); re += '(?:' + c.slice(i + 1, e).split(',').map((x) => x.replace(/[.+^$()|[\]\\]/g, '\\$&').replace(/\*/g, '[^/]*')).join('|') + ')'; i = e; }
      else if (ch === '[') { const e = c.indexOf(']', i); const body = c.slice(i + 1, e); re += '[' + (body[0] === '!' ? '^/' + body.slice(1) : body) + ']'; i = e; }
      else re += ch.replace(/[.+^$()|[\]\\]/g, '\\$&');
    }
  });
  return new RegExp('^' + re + '$', 'us');
}
function fileName(r) { const n = r.range(0, 4); const dirs = Array.from({ length: n }, () => r.pick(PARTS)); const root = r.weighted([[5, ''], [4, '/'], [2, 'C:/'], [0.7, 'd:/'], [2, './'], [0.4, '../']]); return { root, parts: [...dirs, r.pick(FILES)] }; }
const chars = (s) => [...s];
/** names which are easily taken for the same: other roots, parents, parts of the path, other spellings */
function lookalike(r, f) {
  const g = { root: f.root, parts: [...f.parts] };
  r.pick([() => { g.root = r.pick(['', './', '/', '../', 'C:/']); }, () => { g.root = ''; }, () => { g.root = ''; }, () => { g.root = ''; }, () => { g.root = ''; g.parts = g.parts.slice(-1); }, () => { g.parts = g.parts.slice(0, -1); }, () => { g.root = ''; g.parts = g.parts.slice(1); },
    () => { g.parts = g.parts.map((p) => p.toLowerCase()); }, () => { g.parts = g.parts.map((p) => p.toUpperCase()); }, () => { g.parts = g.parts.map((p) => p.normalize('NFD')); }, () => { g.parts = g.parts.map((p) => p.replace(/ /g, '%20')); }, () => { g.parts.push(r.pick(FILES)); }])();
  return g.parts.length ? g : f;
}
/** a glob made from the name by generalising it (it matches) and then perhaps by breaking it */
function globFor(r, f) {
  let root = f.root; let parts = f.parts.map((p, k) => {
    const cs = chars(p); const last = k === f.parts.length - 1; const dot = p.lastIndexOf('.');
    return r.weighted([
      [5, () => p], [2, () => '*'], [1.5, () => (dot > 0 ? '*' + p.slice(dot) : p + '*')], [1, () => { const i = r.int(cs.length); return cs.map((c, j) => (j === i ? '?' : c)).join(''); }],
      [1, () => `{${r.shuffle([p, r.pick(PARTS)]).join(',')}}`], [1, () => { const i = cs.findIndex((c) => /[a-z]/.test(c)); return i < 0 ? p : cs.map((c, j) => (j === i ? r.pick([`[${c}]`, '[a-z]', `[${c}q]`, '[!0-9]']) : c)).join(''); }],
      [0.7, () => (dot > 0 ? p.slice(0, dot) + `.{js,ts,tsx,mjs}` : p)], [0.7, () => cs[0] + '*' + cs[cs.length - 1]], [last ? 0.5 : 0, () => (p.includes('.') ? '*.*' : '*')],
    ])();
  });
  const glob = () => {
    if (r.p(0.45)) { const i = r.int(parts.length); const n = r.int(parts.length - i + 1); const at = i; parts.splice(at, n, '**'); if (at === 0) root = r.p(0.5) ? root : ''; }
  };
  glob();
  if (r.p(0.35)) { // break it
    const lits = parts.map((p, k) => [p, k]).filter(([p]) => p !== '**');
    if (!lits.length || r.p(0.3)) parts.splice(r.int(parts.length + 1), 0, r.pick(PARTS)); else { const [p, k] = r.pick(lits); parts[k] = r.pick([() => p + 'z', () => 'z' + p, () => (/^[a-z]/.test(p) ? p[0].toUpperCase() + p.slice(1) : p + 'q'), () => r.pick(PARTS)])(); }
  }
  return { root, parts };
}
const back = (r, s) => r.pick([(x) => x, (x) => x.replace(/\//g, '\\'), (x) => { let k = 0; return x.replace(/\//g, () => (k++ % 2 ? '/' : '\\')); }, (x) => x.replace(/\//g, '\\')])(s);
/** the text the guarantee speaks about: slashes, drive letter left aside */
const norm = (s) => s.replace(/\\/g, '/').replace(/^[A-Za-z]:/, '');
const BAD_GLOBS = ['a**', '***', '**a/b', '{a', 'a/{b,c', '[a', '<a', '{**/**,a}x**', 'src/**.js'];
function exclusion(r) {
  const f = fileName(r); const text = f.root + f.parts.join('/'); const name = /^[A-Za-z]:/.test(f.root) ? back(r, text) : r.p(0.3) ? back(r, text) : text;
  const n = r.weighted([[1, 0], [5, 1], [3, 2], [2, 3]]); const globs = [];
  for (let k = 0; k < n; k++) { const base = r.p(0.7) ? f : fileName(r); const g = globFor(r, r.p(0.35) ? lookalike(r, base) : base); const t = g.root + g.parts.join('/'); if (/\*\*\/\*\*/.test(t)) continue; if ((!f.root || f.root[0] === '.') && /^([A-Za-z]:)?\/\*\*/.test(t)) continue; /* wax lets /** match relative names, too */ globs.push(t); }
  const shown = globs.map((g) => (r.p(0.4) ? back(r, g) : g));
  let invalid = false; if (r.p(0.12)) { invalid = true; shown.splice(r.int(shown.length + 1), 0, r.pick(BAD_GLOBS)); }
  const hit = !invalid && globs.some((g) => globRe(norm(g)).test(norm(name)));
  return { name, shown, hit, invalid };
}

// ---- configurations
const MALFORMED = ['', '{', 'null', '5', 'true', '"x"', '{"coverageVariable": 5}', '{"compact": "yes"}', '{"reportLogic": 1}', '{"ignoreClassMethods": "m1"}', '{"ignoreClassMethods": [1]}', '{"unstableExclude": "**"}', '{"unstableExclude": [1], "coverageVariable": "__x__"}', '{"instrumentLog": "info"}', '{"instrumentLog": {"level": 3}}', '{"inputSourceMap": 3}', '{"debugInitialCoverageComment": null}', '{"coverageVariable": "__x__",}', "{'compact': true}", '{"compact": true} trailing', '\u0000', '{"reportLogic": true, "inputSourceMap": {"version": "three"}}', 'undefined', '[object Object]', '{"coverageVariable": "a", "coverageVariable": "b"}'];
function options(r) {
  const o = {};
  if (r.p(0.5)) o.debugInitialCoverageComment = r.p(0.8); if (r.p(0.3)) o.reportLogic = r.p(0.8); if (r.p(0.2)) o.compact = r.p(0.5); if (r.p(0.3)) o.coverageVariable = r.pick(['__c__', 'a b', '"q"', 'é', '']);
  if (r.p(0.3)) o.ignoreClassMethods = r.pick([[], ['m1'], ['constructor', 'p1', 'm2']]); if (r.p(0.2)) o.inputSourceMap = bigMap(r); if (r.p(0.25)) o.instrumentLog = { ...(r.p(0.9) ? { level: r.pick(['error', 'warn', 'info', 'debug', 'trace', 'loud', '']) } : {}), ...(r.p(0.6) ? { enableTrace: r.p(0.5) } : {}) };
  return o;
}
function configText(r, o) { // the same options written in different ways
  const x = r.p(0.25) ? { ...o, [r.pick(['unknown', 'cwd', '$schema', 'CoverageVariable'])]: r.pick([1, null, 'x', { a: [] }]) } : o;
  const keys = r.shuffle(Object.keys(x)); const y = {}; for (const k of keys) y[k] = x[k];
  return J(y, null, r.pick([0, 0, 2, '\t']));
}

async function run(i, ctx) {
  const r = new Rng(`${ctx.seed}/C16/${i}`); const kind = i < 0 ? 'config' : ['same', 'exclude', 'config', 'exclude', 'exclude', 'same', 'exclude', 'exclude'][i % 8];
  const p = program(r, `${ctx.seed}/C16/${i}`); const H = getHost();
  let config = null, name = r.p(0.12) ? null : r.pick(NAMES), opts = {}, excluded = false, note = {}; const features = [kind, p.syntax, p.source_type];
  if (kind === 'same') { opts = options(r); config = r.p(0.08) && !Object.keys(opts).length ? null : configText(r, opts); }
  else if (kind === 'config') {
    if (r.p(0.7)) { config = r.pick(MALFORMED); features.push('malformed'); note.malformed = true; }
    else { config = r.pick([null, null, "{}", " {} ", '{"unstableExclude": null}', '{"unstableExclude": []}', '{"inputSourceMap": null}', '{"instrumentLog": {}}']); features.push(config === null ? 'no config' : 'empty config'); }
  } else {
    const x = exclusion(r); name = x.name; excluded = x.hit; opts = r.p(0.5) ? options(r) : {}; if (r.p(0.06)) { name = null; excluded = !x.invalid && r.p(0.5); x.shown = excluded ? [r.pick(['unknown.js', '**/unknown.*', '*.js', 'unk*'])] : x.invalid ? x.shown : ['src/**', '*.ts']; }
    config = configText(r, { ...opts, unstableExclude: x.shown }); note = { globs: x.shown, name, excluded, invalid: x.invalid }; features.push(x.invalid ? 'invalid glob' : excluded ? 'excluded' : 'not excluded');
  }
  if (i < 0) { Object.assign(p, { code: 'var a = 1;\nexport {};', source_type: 'module', syntax: 'es', enable_comments: true, strip: undefined, react: false }); config = '{"unstableExclude": []}'; name = ''; opts = {}; excluded = false; note = {}; }
  const req = { ...p, filename: name ?? 'unknown.js' }; const vs = [];
  const V = (sig, detail) => vs.push({ sig, detail: { ...detail, ...note }, input: { ...p, name, config } });
  const want = await ctx.h.call({ ...req, op: excluded ? 'plain' : 'instrument', options: opts, no_comments: !p.enable_comments });
  if (want.parse_error) return { skips: { 'not valid': 1 } };
  if (!want.ok) return { status: 'inconclusive', why: 'reference: ' + J(want).slice(0, 200) };
  let got;
  try { got = H.run({ ...req, context_filename: name, config }); } catch (e) { host = null; throw e; }
  if (got.unsupported) return { status: 'inconclusive', why: 'host function ' + got.unsupported };
  if (!got.ok) V('plugin failed', { trap: String(got.trap ?? J(got)).slice(0, 600), stdout: got.stdout });
  else {
    if (got.code !== want.code) {
      let j = 0; while (got.code[j] === want.code[j]) j++; const has = /coverageData = \{/.test(got.code);
      V(excluded ? (has ? 'excluded file was instrumented' : 'excluded file was changed') : !has && /coverageData = \{/.test(want.code) ? 'file was not instrumented' : 'program differs from the library\'s', { at: j, got: got.code.slice(Math.max(0, j - 60), j + 100), want: want.code.slice(Math.max(0, j - 60), j + 100) });
    }
    if (J(got.cov_comments) !== J(want.cov_comments)) V('comments differ from the library\'s', { got: got.cov_comments, want: want.cov_comments });
    if (note.malformed && !got.obs.stdout) V('malformed configuration is not reported', { config });
    if (note.invalid && !got.obs.stdout) V('invalid glob is not reported', {});
  }
  const calls = got.obs?.calls ?? {}; const n = (re) => Object.entries(calls).reduce((a, [k, v]) => a + (re.test(k) ? v : 0), 0);
  return { evals: 1, keys: [J([p.code, name, config])], features, counters: { plugin_runs: 1, host_calls: n(/./), position_lookups: n(/lookup/), comment_calls: n(/comment/), excluded: +excluded, not_excluded: +(kind === 'exclude' && !excluded), log_bytes: got.obs?.stdout.length ?? 0 }, sample: { case: i, kind, name, config: config?.slice(0, 300), code: p.code.slice(0, 200) }, violations: vs.slice(0, 3) };
}
export const plugin = {
  C16: {
    level: 'exploration', technique: 'the plugin compiled to WebAssembly runs behind a host which records and answers its calls; its program and comments are compared with the library\'s, exclusions with a glob oracle',
    rule: 'Seeded random programs (JavaScript, TypeScript, JSX), file names, configurations (valid, malformed, missing) and exclusion globs made from the name by generalising or breaking them, with either kind of slash; non-trivial: the plugin ran and its result was compared; distinct by program, name and configuration.',
    note: 'Held on the executions explored. The host side of swc is reimplemented here (lib/plugin.mjs, harness/src/plugin.rs); trusts V8, swc\'s serialisation and, for globs, the forms the oracle knows (*, **, ?, {}, []).',
    assumptions: ['drive letters and network prefixes of names and globs are not compared (the normalisation drops them, as its unit test allows)', 'one plugin instance per file, as swc does', 'the host is a reimplementation of swc_plugin_runner, which is not available offline'],
    fixedCases: 1, plan: { quick: { cases: 3600, maxMs: 400000, caseMs: 30000 }, thorough: { cases: 30000, maxMs: 3000000, caseMs: 30000 } },
    build: () => buildPlugin(), run,
  },
};
