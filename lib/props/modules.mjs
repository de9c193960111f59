// C12: output is a function of file, path and options. C13: directives, strictness, module structure.
import vm from 'node:vm';
import { Rng } from '../rng.mjs';
import { generate } from '../gen.mjs';
import { count as SHAPES, shape } from '../shapes.mjs';
import { Harness } from '../harness.mjs';
import { acorn } from '../istanbul.mjs';
import { children, parse } from '../ref.mjs';
import { makeHost, newRealm, settle, describeErr, run, snapshot } from '../run.mjs';
import { config } from './programs.mjs';
import { parseOut, parses, printed, template } from './data.mjs';

const J = JSON.stringify;
// ---- C12
const TINY = ['  a  ;  ', '    x = 1', ' f ( ) ; ', '  ( ) => 1  ', '  a  &&  b  ', '   a ? b : c', '   `  `  ', '  function f ( ) { }  ', '  let   y   =   2 ;', '     ', '  if  (a)  b  ;  ', ' ( class { a = 1 } ) '];
/** the same text with other white space of the same length: all nodes keep their positions, on other lines */
const relaid = (code, r) => code.replace(/ /g, () => (r.p(0.35) ? '\n' : ' '));
const HINTED = ['/* istanbul ignore next */', '/* xxxxxxxx ignore next */', '/* istanbul ignore else */', '/* istanbul ignore if   */', '/* istanbul ignore nixt */'];
/** comments of one length in front of some lines, so that positions agree however the hints differ */
const slots = (code, r) => code.split('\n').map((l) => (/^\s*(if|for|function|class|while|try|switch|let|const|var|\$t|return|m\d|static|get|set|case)\b/.test(l) && r.p(0.5) ? HINTED[r.int(HINTED.length)] + l : l)).join('\n');
const rehinted = (code, r) => code.replace(/\/\* (istanbul|xxxxxxxx) ignore (next|else|if {3}|nixt) \*\//g, () => r.pick(HINTED));
const C12 = {
  level: 'exploration', technique: 'history monitor: outputs recorded from fresh processes, a long-lived process, permuted batches and concurrent threads with injected delays, checked for equality',
  rule: 'Seeded random sets of five to nine instrumentation requests (same path with other text, same text with other path, options or line breaks, invalid ones in between), each answered by a fresh process, by a process with a long history, in permuted batches and by concurrent threads; non-trivial: all answers of a set were compared; distinct by set and schedule.',
  assumptions: ['threads are delayed by random times; not every schedule is reached (the evidence counts the distinct ones)'], plan: { quick: { cases: 420, maxMs: 400000, caseMs: 30000 }, thorough: { cases: 6000, maxMs: 3000000, caseMs: 30000 } },
  nondeterministic: true,
  async run(i, ctx) {
    const r = new Rng(`${ctx.seed}/C12/${i}`); const n = r.range(5, 9); const items = []; const tiny = r.p(0.3);
    const opt = () => ({ ...(r.p(0.6) ? { debugInitialCoverageComment: true } : {}), ...(r.p(0.3) ? { reportLogic: true } : {}), ...(r.p(0.2) ? { coverageVariable: r.pick(['__a__', '__b__']) } : {}), ...(r.p(0.3) ? { ignoreClassMethods: r.pick([['m1'], ['m2'], ['m1', 'constructor'], []]) } : {}), ...(r.p(0.15) ? { inputSourceMap: { version: 3, sources: [`s${r.int(5)}.ts`], names: [], mappings: 'AAAA' } } : {}) });
    for (let k = 0; k < n; k++) {
      const st = r.pick(['script', 'module', 'commonjs']);
      const base = items.length && r.p(0.4) ? r.pick(items) : null; const how = r.pick(['path', 'text', 'options', 'same', 'layout', 'layout', 'hints', 'hints', 'log']);
      let it = { op: 'instrument', code: tiny && r.p(0.8) ? r.pick(TINY) : generate(`${ctx.seed}/C12/${i}/${k}`, { sourceType: st === 'module' ? 'module' : 'script', size: r.pick([6, 20, 60]) }).code, filename: `/t/f${r.int(3)}.js`, source_type: st, options: opt() };
      if (base) it = how === 'path' ? { ...base, filename: base.filename + 'x' } : how === 'text' ? { ...it, filename: base.filename, options: base.options } : how === 'options' ? { ...base, options: opt() } : how === 'layout' ? { ...base, code: relaid(base.code, r) } : how === 'hints' ? { ...base, code: rehinted(base.code, r) } : how === 'log' ? { ...base, options: { ...base.options, instrumentLog: { level: 'trace', enableTrace: true } } } : { ...base };
      if (!base && r.p(0.35)) it.code = slots(it.code, r);
      if (r.p(0.06)) it.code = r.pick(['var = ;', '/* istanbul ignore file */ a;', '', ';', 'function f() {']);
      if (r.p(0.1)) { it.syntax = 'ts'; it.code = 'interface A { x: 1 }\n' + r.pick(['enum E { a = 1 }', 'namespace N { export const q = () => 1; }', 'let x: number = 1;', 'abstract class Q { abstract m(): void; constructor(private a = 1) {} }']) + '\n'; it.strip = r.pick(['before', 'after']); it.source_type = 'module'; }
      items.push(it);
    }
    for (let k = 0; k < items.length; k++) if (tiny && r.p(0.6)) { const o = r.pick(items); items[k] = { ...o, code: relaid(o.code, r) }; }
    const view = (x) => J([x.ok, x.code, x.cov_comments, x.parse_error, x.options_error, x.panic]);
    const vs = []; const V = (sig, k, got, want) => { let j = 0; while (got[j] === want[j]) j++; vs.push({ sig, detail: { item: k, at: j, got: got.slice(Math.max(0, j - 40), j + 80), want: want.slice(Math.max(0, j - 40), j + 80) }, input: { items } }); };
    // each in a process of its own
    const ref = []; const alone = async (it) => { const h = new Harness(); try { return view(await h.call(it)); } finally { h.close(); } };
    for (const it of items) ref.push(await alone(it));
    let answers = n; const check = (how, list) => list.forEach(([k, x]) => { answers++; const v = view(x); if (v !== ref[k]) V(how, k, v, ref[k]); });
    const hist = []; for (const k of r.shuffle(items.map((_, q) => q))) hist.push([k, await ctx.h.call(r.p(0.3) ? { ...items[k], pad: 1 + r.int(5000) } : items[k])]); // pad: behind another file in the source map
    check('long-lived process', hist);
    const h = new Harness(); const orders = [];
    try {
      for (let t = 0; t < 2; t++) { const perm = r.shuffle([...items.keys(), ...items.keys()]); const b = await h.call({ op: 'batch', items: perm.map((k) => items[k]) }); check('batch', perm.map((k, q) => [k, b.results[q]])); }
      for (let t = 0; t < 4; t++) {
        const perm = r.shuffle([...items.keys(), ...(t % 2 ? items.keys() : [])]); const spread = r.pick([0, 50, 400, 3000]);
        const p = await h.call({ op: 'parallel', items: perm.map((k) => ({ ...items[k], spin_us: spread ? r.int(spread) : 0 })) });
        check('threads', perm.map((k, q) => [k, p.results[q]])); orders.push(J([perm, p.order]));
      }
    } finally { h.close(); }
    let overlaps = 0; for (const o of orders) { let live = 0; for (const e of JSON.parse(o)[1]) { if (e < 1000) { if (live) overlaps++; live++; } else live--; } }
    return { evals: answers, keys: orders.map((o) => i + o), counters: { sets: 1, answers_compared: answers, processes: n + 1, thread_schedules: orders.length, overlapping_starts: overlaps }, features: items.map((x) => x.source_type + (x.syntax ?? '')), sample: { case: i, files: items.map((x) => [x.filename, J(x.options)]), schedule: orders[0].slice(0, 200) }, violations: vs.slice(0, 3) };
  },
};

// ---- C13
const isFn = (n) => n.type === 'FunctionDeclaration' || n.type === 'FunctionExpression' || n.type === 'ArrowFunctionExpression';
/** directive prologues of the program and of all functions, in source order, without the coverage function */
export function prologues(ast, code, printed) {
  const of = (body) => { const out = []; for (const s of body) { if (s.directive === undefined) break; out.push(s.directive); } return out; };
  const out = [['program', of(ast.body)]];
  (function walk(n) {
    if (n.type === 'FunctionDeclaration' && /^cov_\d+$/.test(n.id?.name ?? '')) return;
    if (isFn(n)) out.push([n.type, n.body.type === 'BlockStatement' ? of(n.body.body) : []]);
    for (const [, c] of children(n)) walk(c);
  })(ast);
  return out;
}
/** b is a without functions which nothing refers to and which have no directives (swc drops these from nested sequences) */
const fewer = (a, b) => { let k = 0; for (const x of a) { if (k < b.length && J(x) === J(b[k])) k++; else if (x[1].length) return false; } return k === b.length; };
const unq = (s) => s.replace(/^['"]|['"]$/g, '');
/** imports and exports of a module in order */
export function structure(ast) {
  const nm = (x) => (x ? (x.type === 'Identifier' ? x.name : J(x.value)) : null);
  const at = (n) => (n.attributes ?? []).map((a) => `${nm(a.key)}=${a.value.value}`).join();
  const names = (p, out = []) => { if (p.type === 'Identifier') out.push(p.name); else if (p.type === 'AssignmentPattern') names(p.left, out); else if (p.type === 'RestElement') names(p.argument, out); else for (const x of p.elements ?? p.properties) if (x) names(x.type === 'Property' ? x.value : x, out); return out; };
  const out = { imports: [], exports: [] };
  for (const n of ast.body) {
    if (n.type === 'ImportDeclaration') out.imports.push(['import', n.source.value, at(n), n.specifiers.map((s) => [s.type, nm(s.imported), s.local.name])]);
    else if (n.type === 'ExportAllDeclaration') { out.imports.push(['from', n.source.value, at(n)]); out.exports.push(['*', nm(n.exported), n.source.value]); }
    else if (n.type === 'ExportNamedDeclaration') {
      if (n.source) out.imports.push(['from', n.source.value, at(n)]);
      if (n.declaration) { const d = n.declaration; out.exports.push([d.type, d.kind ?? (d.async ? 'async' : '') + (d.generator ? '*' : ''), d.id ? d.id.name : d.declarations.flatMap((x) => names(x.id))]); }
      else if (n.specifiers.length || n.source) out.exports.push(['{}', n.source?.value ?? null, n.specifiers.map((s) => [nm(s.local), nm(s.exported)])]);
    } else if (n.type === 'ExportDefaultDeclaration') { let d = n.declaration; out.exports.push(['default', /^(Function|Class)Declaration$/.test(d.type) ? [d.type, d.id?.name ?? null, d.async, d.generator] : 'expression']); }
  }
  return out;
}
const DIR = ['"use strict";', "'use strict';", '"use strict"\n', '"use strict";', '"other";', "'use asm-not'", '"use\\x20strict";', '"";', '"use client";', '"a\\"b";', "'it\\'s';", '"use strict"; "again";', '"first"; \'use strict\';', '/* istanbul ignore next */ "use strict";', '// c\n"use strict";', '"use strict" /* t */;', '("use strict");', '"use strict" + "";', '"use strict", 0;', '`use strict`;', '"use strict".length;', ''];
function probe(r, id) { const k = id(); return r.pick([`$t(${k}, (function () { return this === undefined; })());`, `try { undecl${k} = 1; $t(${k}, 1); } catch (e) { $t(${k}, e); }`, `$t(${k}, (function (a) { arguments[0] = 2; return a; })(1));`, `$t(${k}, typeof this);`, `try { $t(${k}, delete Object.prototype); } catch (e) { $t(${k}, e); }`, `$t(${k}, (() => { try { return (function () { return arguments.callee; })() && 1; } catch (e) { return 2; } })());`]); }
/** functions of every kind with directive prologues, hoisted uses, and probes for strictness */
function strictProgram(r, st) {
  let n = 0; const id = () => ++n; let out = ''; const d = (p = 0.7) => (r.p(p) ? r.pick(DIR) + (r.p(0.2) ? '\n' + r.pick(DIR) : '') : ''); const P = () => probe(r, id); const nl = () => r.pick([' ', '\n', '\n  ']);
  let strict = false; if (r.p(0.5)) { const x = d(1); out += x + '\n'; strict = /use strict/.test(x); }
  const body = (dep) => `{${nl()}${d()}${nl()}${P()}${r.p(0.3) && dep > 0 ? nl() + item(dep - 1) : ''}${r.p(0.25) ? nl() + 'return ' + id() + ';' : ''}${nl()}}`;
  function item(dep = 2) {
    const k = id();
    return r.weighted([
      [3, () => `${r.p(0.5) ? `$t(${id()}, h${k}(1));${nl()}` : ''}function h${k}(a) ${body(dep)}${nl()}$t(${id()}, h${k}(2));`],
      [2, () => `$t(${k}, (function (a, b) ${body(dep)})(1));`], [2, () => `$t(${k}, ((a) => ${body(dep)})(1));`],
      [1, () => `$t(${k}, ({ m() ${body(dep)} }).m());`], [1, () => `$t(${k}, ({ get p() ${body(dep)} }).p);`], [1, () => `({ set p(v) ${body(dep)} }).p = 1;`], [1, () => `$t(${k}, new (class { constructor() ${body(dep)} }) instanceof Object);`],
      [1, () => `$t(${k}, new (class { m() ${body(dep)} static s() ${body(0)} })().m());`], [1, () => `(async () => ${body(dep)})().then((v) => $t(${k}, v));`], [1, () => `for (const v of (function* () ${body(dep)})()) $t(${k}, v);`],
      [1, () => `$t(${k}, (function () {${d(1)}})());`], [1, () => `$t(${k}, (() => {${d(1)} })());`], [1, () => `{ $t(${id()}, typeof h${k}); function h${k}() ${body(dep)} }`], [1, () => P()], [1, () => `(async function* () ${body(dep)})().next().then((v) => $t(${k}, v));`],
      [1, () => `class S${k} { static { ${P()} "use strict"; ${P()} } m() ${body(0)} } $t(${id()}, new S${k}().m());`], [1, () => `$t(${k}, new Function("return 1")());`], [1, () => `var e${k} = eval("function ev${k}() { return this === undefined; } ev${k}()"); $t(${id()}, e${k});`],
    ])();
  }
  const m = r.range(2, 6); for (let k = 0; k < m; k++) out += item() + '\n';
  return out;
}
/** a set of modules which import each other, cycles included */
function moduleSet(r) {
  const n = r.range(2, 4); const out = []; let c = 0; const id = () => ++c;
  for (let k = 0; k < n; k++) {
    const im = [], body = [], ex = []; const names = []; const js = Array.from({ length: n }, (_, j) => j).filter((j) => j !== k && r.p(0.7)); if (r.p(0.15)) js.push(k);
    for (const j of js) {
      const q = id(); const src = `"./m${j}.js"`;
      const [s, u] = r.pick([() => [`import { fn as f${q}, val as v${q} } from ${src};`, [`f${q}(1)`, `v${q}`]], () => [`import d${q} from ${src};`, [`typeof d${q}`, `d${q}(2)`]], () => [`import * as ns${q} from ${src};`, [`ns${q}.fn(3)`, `Object.keys(ns${q}).join()`, `ns${q}.live`]], () => [`import d${q}, { live as l${q}, inc as i${q} } from ${src};`, [`[i${q}(), l${q}]`, `d${q}`]], () => [`import ${src};`, []], () => [`import d${q}, * as ns${q} from ${src};`, [`ns${q}.default === d${q}`]], () => [`import { "str name" as sn${q} } from ${src};`, [`sn${q}`]], () => [`import { default as dd${q} } from ${src};`, [`dd${q}`]]])();
      (r.p(0.7) ? im : body).push(s); for (const x of u) (r.p(0.5) ? im : body).push(`try { $t(${id()}, ${x}); } catch (e) { $t(${id()}, e); }`);
      if (r.p(0.3)) ex.push(r.pick([`export * as star${q} from ${src};`, `export { fn as re${q}, default as rd${q} } from ${src};`, `export { val as "s ${q}" } from ${src};`, `export {} from ${src};`]));
      if (r.p(0.1)) ex.push(`export * from ${src};`);
    }
    body.push(`export function fn(x) { $t(${id()}, x); return x > 2 ? x - 1 : x || ${k}; }`, r.pick([`export const val = $t(${id()}, ${k} ? 1 : 2);`, `export var val = ${k} || 5;`, `const val = [${k}]; export { val };`, `export const { val } = { val: ${k} };`, `export class val { static x = ${k}; }`, `export let val; val = 3;`]), `export let live = ${k}; export function inc() { return live++; }`,
      r.pick([`export default function (x) { return x && ${k}; }`, `export default class { m() { return 1; } }`, `export default ${k} ? "d" : () => 1;`, `export default async () => ${k};`, `function dd(x) { return x; } export { dd as default };`, `export default function named(x) { return typeof named; }`, `export default async function* gen() {}`, `let late = 1; export default late; late = 2;`]), `const sn = "sn${k}"; export { sn as "str name" };`);
    if (r.p(0.2)) body.push(`await $t(${id()}, null);`); if (r.p(0.2)) body.push(`export async function* ag() {}`); if (r.p(0.1)) body.push(`throw $e("boom${k}");`);
    const all = [...im, ...r.shuffle([...body, ...ex])]; const rest = r.p(0.3) ? r.shuffle(all) : all;
    out.push((r.p(0.2) ? r.pick(['"use client";\n', '"use strict";\n', "'a';\n\"b\";\n"]) : 'export {};\n') + rest.join('\n') + '\n');
  }
  return out;
}
async function runModules(texts, covVar = '__coverage__') {
  const host = makeHost(); const realm = newRealm(host); let completion = 'normal'; let ms;
  const on = () => {}; process.on('unhandledRejection', on);
  try {
    try { ms = texts.map((t, k) => new vm.SourceTextModule(t, { context: realm.context, identifier: `m${k}` })); } catch (e) { return { syntax: String(e.message) }; }
    try { await ms[0].link((s) => ms[+/m(\d)/.exec(s)[1]]); await ms[0].evaluate({ timeout: 4000 }); } catch (e) { if (/does not provide an export|ambiguous|SyntaxError/.test(String(e?.message) + e?.name)) return { link: String(e.message) }; completion = 'throw ' + describeErr(realm.desc, e); }
    await settle();
    ms.forEach((m, k) => { let s; try { s = Object.keys(m.namespace).map((x) => { try { return x + '=' + realm.desc(m.namespace[x], 3, []); } catch { return x + '!'; } }).join(';'); } catch (e) { s = '!'; } host.trace.push(`ns${k} ${m.status} ${s}`); });
  } finally { process.removeListener('unhandledRejection', on); }
  let entries = []; try { entries = Object.keys(vm.runInContext(`globalThis[${J(covVar)}] ?? {}`, realm.context)); } catch {}
  return { trace: host.trace, completion, snap: J([host.trace, completion]), entries, statuses: ms.map((m) => m.status), fuelOut: host.fuel < 0 };
}
async function c13Modules(i, r, ctx) {
  const texts = moduleSet(r); for (const t of texts) { try { parse(t, 'module'); } catch (e) { return { skips: { 'not valid': 1 } }; } }
  const r0 = await runModules(texts); if (r0.syntax || r0.fuelOut) return { skips: { 'not valid': 1 } };
  const xs = []; for (let k = 0; k < texts.length; k++) xs.push(await ctx.h.call({ op: 'instrument', code: texts[k], filename: `/t/m${k}.js`, source_type: 'module', options: i % 4 === 3 ? { reportLogic: true } : {} }));
  const bad = xs.find((x) => !x.ok); if (bad) return bad.panic || bad.crash ? { evals: 1, violations: [{ sig: 'panic', detail: bad, input: { texts } }] } : { skips: { swc: 1 } };
  const vs = []; const V = (sig, detail) => vs.push({ sig, detail, input: { texts } }); let sig = 0;
  for (let k = 0; k < texts.length; k++) {
    let q; try { q = parseOut(xs[k].code, 'module'); } catch (e) { if (await printed(ctx.h, { code: texts[k], filename: `/t/m${k}.js`, source_type: 'module' })) V('output does not parse', { e: String(e), k }); continue; }
    const a = structure(parse(texts[k], 'module').ast), b = structure(q); sig += a.imports.length + a.exports.length;
    if (J(a) !== J(b)) { const p = await ctx.h.call({ op: 'plain', code: texts[k], filename: `/t/m${k}.js`, source_type: 'module' }); if (parses(p.code, 'module') && J(structure(parseOut(p.code, 'module'))) === J(a)) V('imports or exports differ', { before: J(a).slice(0, 500), after: J(b).slice(0, 500) }); }
    const d1 = prologues(parse(texts[k], 'module').ast), d2 = prologues(q); if (J(d1) !== J(d2)) V('directives differ', { before: J(d1).slice(0, 300), after: J(d2).slice(0, 300) });
  }
  const r2 = await runModules(xs.map((x) => x.code));
  if (r0.link ? !r2.link : r2.syntax || r2.link || r2.snap !== r0.snap) {
    const ps = []; for (let k = 0; k < texts.length; k++) ps.push((await ctx.h.call({ op: 'plain', code: texts[k], filename: `/t/m${k}.js`, source_type: 'module' })).code); const rp = await runModules(ps);
    if (rp.snap === r0.snap && !!rp.link === !!r0.link) { let j = 0; while (r0.trace && r2.trace && j < r0.trace.length && r0.trace[j] === r2.trace[j]) j++; V('modules behave differently', { link: [r0.link, r2.link], syntax: r2.syntax, at: j, before: r0.trace?.[j], after: r2.trace?.[j], completion: [r0.completion, r2.completion] }); }
  }
  return { evals: 1, keys: r0.link ? [] : [texts.join('\0')], features: ['modules', r0.completion?.split(' ')[0] ?? 'link'], counters: { module_graphs: 1, modules: texts.length, import_export_items: sig, entries: r2.entries?.length ?? 0, trace_events: r0.trace?.length ?? 0 }, sample: { case: i, modules: texts.map((t) => t.slice(0, 200)) }, violations: vs.slice(0, 3) };
}
const C13 = {
  level: 'exploration', technique: 'execution monitor with strictness probes in functions of every kind, module graphs with cycles linked and run, and a parser checking directive prologues, imports and exports of every output',
  rule: 'Seeded random programs with directive prologues and strictness probes in functions of every kind, general random programs with directives, shapes, and module graphs with import cycles, re-exports and live bindings; non-trivial: original and instrumented program ran and were compared; distinct by text.',
  assumptions: ['V8 and acorn evaluate and parse correctly', 'what swc\'s printer changes without instrumentation is not counted'], plan: { quick: { cases: 4200, maxMs: 400000 }, thorough: { cases: 40000, maxMs: 3000000 } },
  async run(i, ctx) {
    const r = new Rng(`${ctx.seed}/C13/${i}`);
    if (i % 3 === 2) return c13Modules(i, r, ctx);
    const sh = i % 9 === 4 ? shape(r.int(SHAPES())) : null; const st = sh ? sh.sourceType : i % 2 ? 'module' : r.p(0.25) ? 'commonjs' : 'script';
    let code = sh ? sh.code : i % 3 === 0 ? strictProgram(r, st) : generate(`${ctx.seed}/C13/${i}`, { ...config('C13', i, ctx), sourceType: st === 'module' ? 'module' : 'script', directives: true }).code;
    if (i % 3 === 0 && r.p(0.1)) code = '#!/usr/bin/env node\n' + code;
    let ast; try { ast = parse(code, st).ast; } catch { return { skips: { 'not valid': 1 } }; }
    const ex = (c) => run(c, { sourceType: st });
    const r0 = await ex(code); if (r0.syntax || r0.timeout || r0.fuelOut) return { skips: { 'not valid': 1 } };
    const options = i % 4 === 3 && i % 3 === 0 ? { reportLogic: true } : {}; const rq = { code, filename: '/t/f.js', source_type: st };
    const x = await ctx.h.call({ op: 'instrument', ...rq, options }); const vs = []; const V = (sig, detail) => vs.push({ sig, detail, input: { code, sourceType: st, options } });
    if (!x.ok) { if (x.panic || x.crash) { V('panic', x); return { evals: 1, violations: vs }; } return { skips: { swc: 1 } }; }
    const plain = async () => ctx.h.call({ op: 'plain', ...rq });
    const r2 = await ex(x.code); let q = null; try { q = parseOut(x.code, st); } catch (e) { V('output does not parse', { e: String(e) }); }
    let fns = 0, dirs = 0;
    if (q) {
      const a = prologues(ast), b = prologues(q); fns = a.length; for (const [, l] of a) dirs += l.length;
      if (J(a) !== J(b) && !(sh && fewer(a, b))) { const p = await plain(); if (parses(p.code, st) && J(prologues(parseOut(p.code, st))) === J(a)) V('directives differ', { before: J(a).slice(0, 400), after: J(b).slice(0, 400) }); }
      if (st === 'module') { const sa = structure(ast), sb = structure(q); if (J(sa) !== J(sb)) { const p = await plain(); if (parses(p.code, st) && J(structure(parseOut(p.code, st))) === J(sa)) V('imports or exports differ', { before: J(sa).slice(0, 400), after: J(sb).slice(0, 400) }); } }
      if (code.startsWith('#!') && !x.code.startsWith('#!/usr/bin/env node\n')) V('hashbang lost', { at: x.code.slice(0, 50) });
      const t = template(x.code, st); if (t.n !== 1) V('coverage functions', { n: t.n });
    }
    if (r2.syntax || snapshot(r2) !== snapshot(r0)) { const p = await plain(); const rp = await ex(p.code); if (!rp.syntax && snapshot(rp) === snapshot(r0)) { let j = 0; while (j < r0.trace.length && r0.trace[j] === r2.trace[j]) j++; V('behaviour', { at: j, before: r0.trace[j], after: r2.trace[j], completion: [r0.completion, r2.completion], syntax: r2.syntax }); } else return { skips: { 'swc printer': 1 } }; }
    return { evals: 1, keys: [code], features: [st + (i % 3 === 0 ? ' strictness' : ' general')], counters: { programs: 1, functions_compared: fns, directives_compared: dirs, trace_events: r0.trace.length }, sample: { case: i, code: code.slice(0, 300) }, violations: vs.slice(0, 3) };
  },
};
export const modules = { C12, C13 };
