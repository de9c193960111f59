// C09 ignoreClassMethods, C11 hash and comment, C14 input source map, C24 options.
import vm from 'node:vm';
import { Rng } from '../rng.mjs';
import { generate } from '../gen.mjs';
import { count as SHAPES, shape } from '../shapes.mjs';
import { analyze, children, parse } from '../ref.mjs';
import { acorn } from '../istanbul.mjs';
import { evalProgram } from '../evalprog.mjs';
import { config } from './programs.mjs';
import { sourceMap } from './oxide.mjs';
import { pathish } from '../text.mjs';

const J = JSON.stringify;
const sorted = (v) => (Array.isArray(v) ? v.map(sorted) : v && typeof v === 'object' ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, sorted(v[k])])) : v);
export const eq = (a, b) => J(sorted(a)) === J(sorted(b));
export function parseOut(code, sourceType) { return acorn.parse(code, { ecmaVersion: 'latest', sourceType: sourceType === 'module' ? 'module' : 'script', allowReturnOutsideFunction: sourceType === 'commonjs', allowHashBang: true }); }
export function parses(code, sourceType) { try { parseOut(code, sourceType); return true; } catch { return false; } }
/** whether swc prints the program without instrumentation such that it can be parsed: its printer is not under test */
export async function printed(h, req) { const p = await h.call({ op: 'plain', ...req }); return p.ok && parses(p.code, req.source_type); }
/** the coverage function of an output: its node, and the data it registers (evaluated in a realm of its own) */
export function template(code, sourceType, covVar = '__coverage__') {
  const ast = parseOut(code, sourceType);
  const fns = ast.body.filter((n) => n.type === 'FunctionDeclaration' && /^cov_\d+$/.test(n.id.name));
  if (fns.length !== 1) return { n: fns.length, ast };
  const src = code.slice(fns[0].start, fns[0].end); const ctx = vm.createContext({});
  const json = vm.runInContext(`${src}; ${fns[0].id.name}(); JSON.stringify(Object.entries(globalThis[${J(covVar)}]))`, ctx);
  const ent = JSON.parse(json); const calls = ast.body.filter((n) => n.type === 'ExpressionStatement' && code.slice(n.start, n.end) === `${fns[0].id.name}();`);
  return { n: 1, ast, fn: fns[0], name: fns[0].id.name, calls, entries: ent, path: ent[0][0], data: ent[0][1], rest: code.slice(0, fns[0].start) + '<fn>' + code.slice(fns[0].end) };
}
const gen = (id, i, ctx, extra = {}) => { const c = config(id, i, ctx); const r = new Rng(c.seedText, 'opts');
  if (i % 7 === 3 || i % 7 === 5) { const g = shape(new Rng(c.seedText, 'shape').int(SHAPES())); return { c: { ...c, sourceType: g.sourceType }, r, code: g.code, features: new Set(['shape']) }; }
  const { code, features } = generate(c.seedText, { ...c, ...extra }); return { c, r, code, features }; };
const inst = (ctx, code, st, options, filename = '/t/f.js', more = {}) => ctx.h.call({ op: 'instrument', code, filename, source_type: st, options, ...more });
const bare = ({ hash, _coverageSchema, ...d }) => d;
const COUNTS = new Set(['s', 'f', 'b', 'bT', 'behaviour', 'syntax', 'panic', 'nocov']);
const fail = (x) => (x.panic || x.crash ? { evals: 1, violations: [{ sig: 'panic', detail: x }] } : { skips: { swc: 1 } });
const ASSUME = ['V8 and acorn evaluate and parse correctly'];

// ---- C09
function namesIn(ast) {
  const out = { hit: new Set(), miss: new Set() };
  (function walk(n, parent) {
    if (n.type === 'MethodDefinition' || (n.type === 'Property' && parent.type === 'ObjectExpression' && (n.method || n.kind !== 'init'))) {
      if (!n.computed && n.key.type === 'Identifier') out.hit.add(n.key.name); else if (n.key.type === 'PrivateIdentifier') { out.miss.add('#' + n.key.name); out.miss.add(n.key.name); } else if (n.key.type === 'Literal') out.miss.add(String(n.key.value));
    } else if (n.type === 'PropertyDefinition' || n.type === 'Property') { if (n.key.type === 'Identifier') out.miss.add(n.key.name); }
    if (n.type === 'FunctionExpression' && n.id) out.hit.add(n.id.name);
    if (/^(FunctionDeclaration|ClassDeclaration|ClassExpression)$/.test(n.type) && n.id) out.miss.add(n.id.name);
    if (n.type === 'VariableDeclarator' && n.id.type === 'Identifier') out.miss.add(n.id.name);
    for (const [, c] of children(n)) walk(c, n);
  })(ast, null);
  return out;
}
const C09 = {
  level: 'exploration', technique: 'execution monitor: counters of instrumented runs with ignoreClassMethods against a reference which excludes the named methods; outputs with and without names that do not occur compared',
  rule: 'Seeded random programs with one to four listed names, of methods, accessors, constructors and function expressions in the program and of other things (declarations, classes, variables, private and string-named methods, absent names); non-trivial: the program ran and a counter was excluded, or no listed name occurs; distinct by text and names.',
  assumptions: ASSUME, plan: { quick: { cases: 3200, maxMs: 400000 }, thorough: { cases: 30000, maxMs: 3000000 } },
  async run(i, ctx) {
    const { c, r, code } = gen('C09', i, ctx, { lead: true }); const rl = i % 5 === 4;
    let ast; try { ast = parse(code, c.sourceType).ast; } catch { return { skips: { 'not valid': 1 } }; }
    const nm = namesIn(ast); const hit = [...nm.hit], miss = [...nm.miss];
    const list = Array.from({ length: r.range(1, 4) }, () => r.weighted([[hit.length ? 6 : 0, () => r.pick(hit)], [miss.length ? 2 : 0, () => r.pick(miss)], [1, () => r.pick(['absent', '', 'toString', '__proto__', 'hasOwnProperty', 'get', 'set', 'anonymous', '(anonymous_0)', '*', 'm', 'M1', 'm1 ', 'constructor'])], [1, () => 'constructor']])());
    const refOpts = { reportLogic: rl, ignoreClassMethods: list };
    const options = { ...(rl ? { reportLogic: true } : {}), ignoreClassMethods: list };
    const e = await evalProgram(ctx.h, code, { sourceType: c.sourceType, options, refOpts });
    if (e.status === 'skip') return { skips: { [e.why.split(':')[0]]: 1 } };
    let dev = e.dev.filter((d) => COUNTS.has(d.cat));
    const all = (a) => a.items.reduce((q, x) => q + (x.ids ? x.ids.length : 1), 0); const full = analyze(code, c.sourceType, { reportLogic: rl }); const gone = all(full) - all(e.a);
    if (dev.length) { const b = await evalProgram(ctx.h, code, { sourceType: c.sourceType, options: rl ? { reportLogic: true } : {}, refOpts: { reportLogic: rl } }); const s = new Set(b.dev.map((d) => d.sig)); dev = dev.filter((d) => !s.has(d.sig)); }
    const none = !list.some((x) => nm.hit.has(x) || x === 'constructor');
    const vs = dev.slice(0, 3).map((d) => ({ sig: d.sig, detail: { ...d.detail, list }, input: { code, sourceType: c.sourceType, options } }));
    if (none) { const [p, q] = [await inst(ctx, code, c.sourceType, options), await inst(ctx, code, c.sourceType, { ...options, ignoreClassMethods: [] })]; if (p.code !== q.code) vs.push({ sig: 'names which do not occur change the output', detail: { list }, input: { code, options } }); }
    return { evals: 1, keys: gone || none ? [J(list) + code] : [], counters: { programs: 1, names_listed: list.length, counters_excluded: gone, programs_without_listed_names: none ? 1 : 0, counters_checked: e.checked, hits_observed: e.events }, features: list.map((x) => (nm.hit.has(x) ? 'hit' : nm.miss.has(x) ? 'miss' : x)),
      sample: { case: i, list, excluded: gone, code: code.slice(0, 300) }, violations: vs };
  },
};

// ---- C11
/** edits of a program: [what, changes the data?, code, filename, options] */
function edits(r, code, filename, options, ast) {
  const out = []; const add = (what, c2, f2 = filename, o2 = options) => out.push({ what, code: c2, filename: f2, options: o2 });
  add('same', code);
  add('line', '\n' + code); add('column', ' ' + code); add('path', code, filename + 'x'); add('path case', code, filename.toUpperCase());
  add('reportLogic', code, filename, { ...options, reportLogic: !options.reportLogic });
  add('variable', code, filename, { ...options, coverageVariable: '__other__' });
  add('no comment', code, filename, { ...options, debugInitialCoverageComment: false });
  add('log', code, filename, { ...options, instrumentLog: { level: 'error', enableTrace: false } }); add('compact', code, filename, { ...options, compact: true });
  add('map', code, filename, { ...options, inputSourceMap: sourceMap(r) }); add('map2', code, filename, { ...options, inputSourceMap: { version: 3, sources: ['a.ts'], names: [], mappings: 'AAAA' } }); add('map3', code, filename, { ...options, inputSourceMap: { version: 3, sources: ['b.ts'], names: [], mappings: 'AAAA' } });
  add('names', code, filename, { ...options, ignoreClassMethods: ['m1'] });
  // literals and names of the same length; a name which occurs in the data and one which does not
  const lits = [], fns = [];
  (function walk(n) { if (n.type === 'Literal' && typeof n.value === 'number' && n.end - n.start === 1) lits.push(n); if (n.type === 'FunctionExpression' && n.id) fns.push(n.id); for (const [, c] of children(n)) walk(c); })(ast);
  const rep = (n, t) => code.slice(0, n.start) + t + code.slice(n.end);
  if (lits.length) add('literal', rep(r.pick(lits), '7'));
  if (fns.length) { const q = r.pick(fns); add('function name', rep(q, 'Z' + q.name.slice(1))); }
  const m = /\b(if|while)\b/.exec(code); if (m) add('hint', code.slice(0, m.index) + '/* istanbul ignore next */' + code.slice(m.index));
  add('tail', code + '\n;0;');
  return out;
}
const C11 = {
  level: 'exploration', technique: 'offline checker over recorded outputs: coverage data evaluated from the output, its hash and its comment compared pairwise over variants of a program; hash function over all outputs of the run',
  rule: 'Seeded random programs, each in some sixteen variants (shifted, other path, other options, other names and literals, hints, source maps); non-trivial: the data of at least two variants were evaluated; distinct by the data of a variant.',
  assumptions: [...ASSUME, 'hashes have 64 bits: no accidental collisions'], plan: { quick: { cases: 900, maxMs: 400000 }, thorough: { cases: 12000, maxMs: 3000000 } },
  async run(i, ctx) {
    const { c, r, code } = gen('C11', i, ctx);
    const odd = ['/t/f.js', '/t/a*/b.js', 'C:\\x\\y.js', '/é/😀.js', '/"\'`${x}.js', '', '/ls\u2028.js', '/<!--.js', '/x\\*\\/y.js', '-->'];
    const filename = r.p(0.4) ? '/t/f.js' : r.p(0.5) ? pathish(r) : r.pick(odd);
    let ast; try { ast = parse(code, c.sourceType).ast; } catch { return { skips: { 'not valid': 1 } }; }
    const options = { debugInitialCoverageComment: r.p(0.9), ...(r.p(0.3) ? { reportLogic: true } : {}) };
    const seen = []; const vs = []; const keys = []; let comments = 0;
    const V = (sig, detail, e) => vs.push({ sig, detail, input: { ...e, sourceType: c.sourceType } });
    for (const e of edits(r, code, filename, options, ast)) {
      try { parse(e.code, c.sourceType); } catch { continue; }
      const x = await inst(ctx, e.code, c.sourceType, e.options, e.filename);
      if (!x.ok) { if (x.panic || x.crash) V('panic', x, e); continue; }
      let t; try { t = template(x.code, c.sourceType, e.options.coverageVariable); } catch (err) { if (await printed(ctx.h, { code: e.code, filename: '/t/f.js', source_type: c.sourceType })) V('output does not parse', { err: String(err), filename: e.filename, what: e.what }, e); continue; }
      if (t.n !== 1) { V('coverage functions', { n: t.n }, e); continue; }
      const d = t.data; const data = J(sorted(bare(d))); keys.push(data);
      if (!d.hash || typeof d.hash !== 'string') V('no hash', { hash: d.hash }, e);
      const inFn = /var hash = "([^"]*)"/.exec(x.code.slice(t.fn.start, t.fn.end))?.[1]; if (inFn !== d.hash) V('hash of function and data differ', { inFn, hash: d.hash }, e);
      for (const s of seen) { if ((s.data === data) !== (s.hash === d.hash)) V(s.data === data ? 'equal data, different hashes' : 'different data, equal hashes', { a: s.what, b: e.what, hash: d.hash, other: s.hash }, e); }
      seen.push({ what: e.what, data, hash: d.hash });
      // comment: as attached, and as found in the text
      const want = e.options.debugInitialCoverageComment ? 1 : 0; comments += x.cov_comments.length;
      if (x.cov_comments.length !== want) V('number of comments', { n: x.cov_comments.length, want }, e);
      else if (want) { let q = null; try { q = JSON.parse(x.cov_comments[0]); } catch {} if (!q || !eq(q, bare(d))) V('comment is not the data', { comment: x.cov_comments[0].slice(0, 200), data: data.slice(0, 200), what: e.what }, e);
        if (x.cov_comments[0].includes('*/')) V('comment ends early', { filename: e.filename, what: e.what }, e); }
    }
    return { evals: seen.length, keys: seen.length > 1 ? keys : [], counters: { variants: seen.length, pairs_compared: seen.length * (seen.length - 1) / 2, distinct_hashes: new Set(seen.map((s) => s.hash)).size, comments }, features: seen.map((s) => s.what),
      sample: { case: i, filename, hashes: seen.map((s) => [s.what, s.hash]) }, violations: vs.slice(0, 4) };
  },
};

// ---- C14
export function bigMap(r) {
  const m = sourceMap(r);
  if (r.p(0.3)) m.sources = r.pick([['webpack:///./a b.js?x*/'], ['/a.ts', '/a.ts'], ['', '\\'], ['"', "'", '`', '${x}'], ['\n\r\t\0'], ['😀'], Array.from({ length: 40 }, (_, k) => `s${k}.ts`)]);
  else if (r.p(0.5)) m.sources = Array.from({ length: r.range(1, 4) }, () => pathish(r));
  if (r.p(0.15)) m.file = pathish(r); if (r.p(0.15)) m.sourceRoot = pathish(r);
  if (r.p(0.4)) m.sourcesContent = r.pick([['let a = 1; /* x */ // y\n</script>'], [null, null], ['/*'], ['*/'], ['\\u0041\\'], ['\u2028\u2029'], ["it's \"quoted\""], ['\u0000\u0001\u007f'], ['é日本😀'], [''], ['x'.repeat(5000)]]);
  if (r.p(0.3)) m.names = r.pick([['constructor', '__proto__', 'toString'], ['a"', 'b\\'], ['', ' ']]);
  if (r.p(0.3)) m.mappings = r.pick(['AAAA;;;;AACA', ',,,', 'A'.repeat(3000), 'AAAA"\\', 'é']);
  if (r.p(0.2)) m.version = r.pick([3, 3, 2, 4, 0]);
  for (const k of ['sources', 'names', 'mappings', 'version']) if (r.p(0.05)) delete m[k];
  if (r.p(0.1)) m.file = null; if (r.p(0.1)) m.sourceRoot = null; if (r.p(0.1)) m.sourcesContent = null;
  if (r.p(0.1)) m.x_google_ignoreList = [0];
  return m;
}
export function normalMap(m) {
  const out = { version: m.version ?? 3, sources: m.sources ?? [], names: m.names ?? [], mappings: m.mappings ?? '' };
  for (const k of ['file', 'sourceRoot', 'sourcesContent']) if (m[k] !== null && m[k] !== undefined) out[k] = m[k];
  return out;
}
const C14 = { asan: true,
  level: 'exploration', technique: 'execution monitor: coverage data registered by the output, with an input source map, compared with the map given and with the data without one',
  rule: 'Seeded random programs with random source maps (hostile strings, null contents, missing fields, long mappings); non-trivial: data with a source map were evaluated; distinct by map and text.',
  assumptions: [...ASSUME, 'a missing field of a source map has its default: version 3, empty sources, names and mappings; null means missing'], fixedCases: 1, plan: { quick: { cases: 2500, maxMs: 400000 }, thorough: { cases: 30000, maxMs: 3000000 } },
  async run(i, ctx) {
    if (i === -1) { const x = await inst(ctx, 'a;', 'script', { inputSourceMap: { version: 3, sources: [null], names: [], mappings: '' } }); return { evals: 1, violations: x.ok ? [] : [{ sig: 'null source', detail: x, input: {} }] }; }
    const { c, r, code } = gen('C14', i, ctx, { size: 10 }); const map = bigMap(r); const o = { ...(r.p(0.3) ? { reportLogic: true } : {}), ...(r.p(0.4) ? { debugInitialCoverageComment: true } : {}), ...(r.p(0.2) ? { coverageVariable: '__c__' } : {}) };
    const [x, y] = [await inst(ctx, code, c.sourceType, { ...o, inputSourceMap: map }), await inst(ctx, code, c.sourceType, { ...o, ...(r.p(0.3) ? { inputSourceMap: null } : {}) })];
    if (!y.ok) return fail(y);
    const input = { code, sourceType: c.sourceType, options: { ...o, inputSourceMap: map } };
    if (!x.ok) return { evals: 1, violations: [{ sig: 'source map not taken', detail: x, input }] };
    const vs = []; const V = (sig, detail) => vs.push({ sig, detail, input }); let a, b;
    try { b = template(y.code, c.sourceType, o.coverageVariable); } catch { return { skips: { 'not valid': 1 } }; }
    try { a = template(x.code, c.sourceType, o.coverageVariable); } catch (e) { V('output does not parse', { e: String(e), map }); return { evals: 1, violations: vs }; }
    if (a.n !== 1 || b.n !== 1) return { skips: { 'no template': 1 } };
    if (!eq(a.data.inputSourceMap, normalMap(map))) V('source map differs', { got: a.data.inputSourceMap, want: normalMap(map) });
    if ('inputSourceMap' in b.data) V('source map out of nothing', { got: b.data.inputSourceMap });
    const cut = ({ inputSourceMap, hash, ...d }) => d;
    if (!eq(cut(a.data), cut(b.data))) V('source map changes the data', {});
    const noc = (t) => t.replace(/\/\*__coverage_data_json_comment__::[^]*?\*\//g, '');
    if (noc(a.rest) !== noc(b.rest)) V('source map changes the program', {});
    if (o.debugInitialCoverageComment) { try { const q = JSON.parse(x.cov_comments[0]); if (!eq(q.inputSourceMap, normalMap(map))) V('source map in comment differs', { got: q.inputSourceMap }); } catch (e) { V('comment', { e: String(e) }); } }
    return { evals: 1, keys: [J(map) + code], counters: { maps: 1, with_contents: map.sourcesContent ? 1 : 0, with_comment: o.debugInitialCoverageComment ? 1 : 0 }, features: Object.keys(map), sample: { case: i, map: J(map).slice(0, 300) }, violations: vs };
  },
};

// ---- C24
const DEFAULTS = { coverageVariable: '__coverage__', compact: false, reportLogic: false, ignoreClassMethods: [], inputSourceMap: null, instrumentLog: { level: null, enableTrace: false }, debugInitialCoverageComment: false, unstableExclude: null };
const C24 = { asan: true,
  level: 'exploration', technique: 'metamorphic: outputs of one program under random subsets of the options compared with the output under the selecting options alone (program text outside of the coverage function, data registered by it)',
  rule: 'Seeded random programs under random subsets of all options; non-trivial: data of both outputs were evaluated; distinct by text and options.',
  assumptions: ASSUME, plan: { quick: { cases: 2500, maxMs: 400000 }, thorough: { cases: 30000, maxMs: 3000000 } },
  async run(i, ctx) {
    const { c, r, code } = gen('C24', i, ctx);
    const sel = { ...(r.p(0.4) ? { reportLogic: true } : {}), ...(r.p(0.3) ? { ignoreClassMethods: r.pick([['m1'], ['constructor', 'p1'], []]) } : {}) };
    const o = { ...sel };
    const mix = [['coverageVariable', () => r.pick(['__cov__', 'x y', 'é"', '__coverage__'])], ['compact', () => r.p(0.6)], ['debugInitialCoverageComment', () => r.p(0.6)], ['inputSourceMap', () => bigMap(r)], ['instrumentLog', () => r.pick([{}, { level: 'info' }, { level: 'trace', enableTrace: true }, { enableTrace: false }, { level: null }])], ['unstableExclude', () => r.pick([[], ['**/other/**'], null])], ['somethingElse', () => 1]];
    const on = r.weighted([[3, 1], [3, 2], [2, 4], [2, 7]]); for (const [k, f] of r.shuffle(mix).slice(0, on)) o[k] = f();
    const dflt = r.p(0.35); // spell out defaults of what is not given
    const o2 = { ...sel }; if (dflt) for (const k of Object.keys(DEFAULTS)) if (!(k in o2) && r.p(0.7)) o2[k] = DEFAULTS[k];
    const more = r.p(0.2) ? { pad: r.int(5000) } : {};
    const x0 = await inst(ctx, code, c.sourceType, sel); if (!x0.ok) return fail(x0);
    const x = await inst(ctx, code, c.sourceType, o, '/t/f.js', more); const vs = []; const V = (sig, detail) => vs.push({ sig, detail: { ...detail, o, sel }, input: { code, sourceType: c.sourceType, options: o, without: sel } });
    if (!x.ok) { V('options not taken', x); return { evals: 1, violations: vs }; }
    if (dflt) { const xd = await inst(ctx, code, c.sourceType, o2); if (xd.code !== x0.code || xd.cov_comments?.length) V('default is not the documented one', { o2, error: xd.ok ? undefined : xd }); }
    let a, b; try { b = template(x0.code, c.sourceType); } catch { return { skips: { 'not valid': 1 } }; }
    try { a = template(x.code, c.sourceType, o.coverageVariable); } catch (e) { V('output does not parse', { e: String(e) }); return { evals: 1, violations: vs }; }
    if (b.n !== 1) return { skips: { 'no template': 1 } };
    if (a.n !== 1) { V('coverage functions', { n: a.n }); return { evals: 1, violations: vs }; }
    const cut = ({ inputSourceMap, hash, ...d }) => d; const noc = (t) => t.replace(/ ?\/\*__coverage_data_json_comment__::[^]*?\*\/ ?/g, '');
    if (!eq(cut(a.data), cut(b.data))) V('options change the data', {});
    if (noc(a.rest) !== noc(b.rest)) { const p = noc(a.rest), q = noc(b.rest); let j = 0; while (p[j] === q[j]) j++; V('options change the program', { at: [p.slice(j - 20, j + 60), q.slice(j - 20, j + 60)] }); }
    // each option has its own effect
    const notes = x.cov_comments ?? []; if (notes.length !== +!!o.debugInitialCoverageComment) V('comments of the data', { n: notes.length });
    else if (notes.length) { let z = null; try { z = JSON.parse(notes[0]); } catch {} if (!z || !eq(bare(a.data), bare(z))) V('comment differs from the data', { comment: notes[0].slice(0, 200) }); }
    if (!!a.data.inputSourceMap !== !!o.inputSourceMap) V('input source map', { given: !!o.inputSourceMap, passed: !!a.data.inputSourceMap });
    if (!!a.data.bT !== !!sel.reportLogic) V('truthiness counts', { bT: a.data.bT });
    if (a.entries.length !== 1 || a.path !== '/t/f.js') V('entry', { entries: a.entries.map((z) => z[0]) });
    return { evals: 1, keys: [J(o) + code], counters: { outputs: dflt ? 3 : 2, options_given: Object.keys(o).length, defaults_spelled_out: dflt ? Object.keys(o2).length : 0 }, features: Object.keys(o), sample: { case: i, options: J(o).slice(0, 300) }, violations: vs };
  },
};
export const data = { C09, C11, C14, C24 };
