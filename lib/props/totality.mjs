// C15: programs of every syntax, generated, spliced and real ones.
import { createRequire } from 'node:module';
import { Rng } from '../rng.mjs';
import { generate, Gen } from '../gen.mjs';
import { count as SHAPE_COUNT, shape } from '../shapes.mjs';
import { analyze, children, parse } from '../ref.mjs';
import { acorn } from '../istanbul.mjs';
import { run, snapshot } from '../run.mjs';
import { evalProgram, compareCounts, compareStructure, covOf, short } from '../evalprog.mjs';
import { decorate } from '../tsgen.mjs';
import { corpus, read } from '../corpus.mjs';
import { config } from './programs.mjs';
import { bigMap } from './data.mjs';
const esbuild = () => createRequire('/opt/veriftools/node/node_modules/x.js')('esbuild');

const CATS = new Set(['s', 'f', 'b', 'bT', 'loc', 'struct', 'behaviour', 'syntax', 'panic', 'nocov']);
function options(r, names = []) {
  const o = {};
  if (r.p(0.3)) o.reportLogic = true;
  if (r.p(0.15)) o.compact = true;
  if (r.p(0.2)) o.ignoreClassMethods = [r.pick(['render', 'constructor', 'toString', ...names])];
  if (r.p(0.15)) o.coverageVariable = r.pick(['__c__', 'a b', '']);
  if (r.p(0.15)) o.inputSourceMap = bigMap(r);
  if (r.p(0.1)) o.instrumentLog = { level: 'trace', enableTrace: r.p(0.5) };
  return o;
}
// nodes which the compiler made before the plugin runs have no place in the source and are put at 0:0 (lookup_range.rs says so)
const GENERATED = (strip, d) => strip === 'before' && /^duplicate/.test(d.sig) && /0:0-0:0$/.test(d.detail.key);
const validJs = (code) => { for (const sourceType of ['module', 'script']) { try { acorn.parse(code, { ecmaVersion: 'latest', sourceType, allowHashBang: true, allowReturnOutsideFunction: true, allowAwaitOutsideFunction: sourceType === 'module', allowSuperOutsideMethod: false }); return true; } catch {} } return false; };

/** instruments without running: panics, validity of the output, and (JavaScript) the data against the reference */
async function statically(h, code, { sourceType, syntax, strip, react, opts, filename = '/t/f.js', against = true }) {
  const req = { code, filename, source_type: sourceType, syntax, strip, react };
  const x = await h.call({ op: 'instrument', ...req, options: { ...opts, debugInitialCoverageComment: true } });
  const vs = []; const V = (sig, detail) => vs.push({ sig, detail });
  if (!x.ok) {
    if (x.panic || x.crash) { const p = await h.call({ op: 'plain', ...req }); if (p.panic) return { ok: false, why: 'swc panics' }; V('panic ' + String(x.panic ?? x.crash).replace(/\d+/g, 'N').slice(0, 120), x); return { ok: true, vs }; }
    if (x.options_error) { V('options', x); return { ok: true, vs }; }
    return { ok: false, why: 'swc' };
  }
  const out = { ok: true, vs, entries: 0 };
  if (!validJs(x.code)) { const p = await h.call({ op: 'plain', ...req }); if (p.ok && validJs(p.code)) V('output does not parse', {}); else out.why = 'not plain JavaScript'; return out; }
  if (!x.cov_comments?.length) return out; // ignored as a whole
  const data = JSON.parse(x.cov_comments[0]); out.entries = Object.keys(data.s).length + Object.keys(data.f).length + Object.keys(data.b).length;
  out.data = data; out.x = x;
  const st = compareStructure(data, x.code, data);
  for (const d of st.dev) { if (!/without increment/.test(d.sig) && !GENERATED(strip, d)) V(d.sig, d.detail); }
  if (against) {
    let a; try { a = analyze(code, sourceType, { reportLogic: opts.reportLogic ?? false, ignoreClassMethods: opts.ignoreClassMethods ?? [], jsx: syntax === 'jsx' }); } catch { out.why = 'acorn'; return out; }
    const c = compareCounts(a, new Float64Array(a.nprobes), data, code, { reportLogic: opts.reportLogic ?? false });
    out.checked = c.checked; for (const d of c.dev) V(d.sig, d.detail);
  }
  return out;
}
const kinds = ['module', 'script', 'commonjs'];
async function corpusCase(i, ctx, r) {
  const all = corpus(); const kind = r.weighted([[8, 'js'], [5, 'ts'], [1, 'dts'], [0.3, 'jsx'], [0.5, 'tsx']]); const list = all[kind];
  if (!list.length) return { skips: { 'no corpus': 1 } };
  const file = r.pick(list); let code; try { code = read(file); } catch { return { skips: { unreadable: 1 } }; }
  if (code.includes('\ufffd') || code.charCodeAt(0) === 0) return { skips: { 'not text': 1 } };
  const hinted = /istanbul/.test(code); const against = kind === 'js' || kind === 'jsx'; if (hinted && r.p(0.7)) code = code.replace(/istanbul/g, 'xxxxxxxx');
  return one(ctx, r, code, { kind, file, against: against && !/istanbul/.test(code) });
}
async function one(ctx, r, code, { kind, file, against, feature }) {
  const js = kind === 'js' || kind === 'jsx'; const opts = options(r, ['get', 'next', 'parse', 'run', 'init', 'foo']);
  const syntax = { js: r.p(0.2) ? 'jsx' : 'es', ts: 'ts', dts: 'ts', jsx: 'jsx', tsx: 'tsx' }[kind];
  const strip = js ? 'none' : r.weighted([[3, 'after'], [1, 'before']]); const react = /sx$/.test(syntax);
  for (const sourceType of kinds) {
    if (against) { try { parse(code, sourceType, syntax === 'jsx'); } catch { continue; } }
    const s = await statically(ctx.h, code, { sourceType, syntax, strip, react, opts, filename: file, against });
    if (!s.ok) continue;
    return { evals: 1, keys: s.entries || kind === 'dts' ? [kind + code] : [], counters: { files: 1, bytes: code.length, entries: s.entries ?? 0, entries_compared: s.checked ?? 0 }, features: [feature ?? 'corpus ' + kind, 'as ' + sourceType, ...(s.why ? [s.why] : [])],
      sample: { kind, file, sourceType, entries: s.entries }, violations: s.vs.slice(0, 3).map((v) => ({ ...v, detail: { ...v.detail, file, sourceType, opts }, input: { code: short(code, 20000), sourceType, options: opts, syntax, strip } })) };
  }
  return { skips: { ['swc or acorn ' + kind]: 1 } };
}
// ---- spliced programs: nodes of one real program in place of nodes of another
const group = (n, parent, key) => (/Statement$/.test(n.type) && n.type !== 'EmptyStatement' && !(n.type === 'BlockStatement' && !/^(Block|If|For|While)/.test(parent?.type ?? '')) ? 's' : /Expression$|^Literal$|^Identifier$/.test(n.type) && /^(argument|arguments|test|left_|right|init|consequent|alternate|elements|expressions|value|object)$/.test(key) && !/Pattern$|^Export|^Import|^TemplateLit|MethodDef|^Property$|^MetaP|^Switch/.test(parent.type) && !(n.type === 'FunctionExpression' && parent.type === 'PropertyDefinition') ? 'e' : null);
function nodesOf(code, sourceType) {
  const ast = parse(code, sourceType).ast; const out = { s: [], e: [] };
  (function walk(n, parent, key) { const g = parent && group(n, parent, key); if (g && n.end - n.start < 3000) out[g].push([n.start, n.end]); for (const [k, c] of children(n)) walk(c, n, k); })(ast, null, '');
  return out;
}
function spliced(r) {
  const list = corpus().js; const get = () => { for (let k = 0; k < 6; k++) { const f = r.pick(list); let code; try { code = read(f); } catch { continue; } if (code.length > 30000) continue; for (const st of kinds) { try { return { code: code.replace(/istanbul/g, 'xxxxxxxx'), st, nodes: nodesOf(code, st), f }; } catch {} } } return null; };
  const a = get(), b = get(); if (!a || !b) return null;
  const edits = []; const n = r.range(1, 12);
  for (let k = 0; k < n; k++) {
    const g = r.p(0.4) ? 's' : 'e'; if (!a.nodes[g].length || !b.nodes[g].length) continue;
    const [s, e] = r.pick(a.nodes[g]); if (edits.some((x) => x.s < e && s < x.e)) continue;
    const src = r.p(0.7) ? b : a; const [p, q] = r.pick(src.nodes[g]); const t = src.code.slice(p, q); edits.push({ s, e, t: g === 'e' ? `(${t}\n)` : r.p(0.2) ? `lab${k}: {${t}\n}` : t + '\n' });
  }
  edits.sort((x, y) => y.s - x.s); let code = a.code; for (const x of edits) code = code.slice(0, x.s) + x.t + code.slice(x.e);
  return { code, f: a.f + ' + ' + b.f, n: edits.length };
}
// ---- TypeScript with behaviour of its own
class TsGen extends Gen {
  e(s, d = 2) { return this.expr(s, d); }
  t(s) { return `$t(${this.id()}, ${this.e(s, 1)})`; }
  item(s, d, inNs) {
    const r = this.r; const ex = inNs && r.p(0.6) ? 'export ' : ''; const c = this.child(s);
    return r.weighted([
      [3, () => { const n = this.fresh('E'); let computed = false; const ms = Array.from({ length: r.range(1, 5) }, (_, i) => { const m = 'ABCDE'[i]; const v = r.weighted([[computed ? 0 : 3, ''], [3, () => ` = ${r.pick(['5', '1 << 2', '"s"', '-1', i ? 'A' : '2'])}`], [2, () => ` = ${this.t(c)} as any`], [1, () => ` = (${this.e(c, 2)}) as any`]]); const t = typeof v === 'function' ? v() : v; if (t && !/= (5|1 << 2|-1|2)$/.test(t)) computed = true; else if (t) computed = false; return (r.p(0.2) ? `"${m}"` : m) + t; }); const k = r.p(0.2) && !computed ? 'const ' : ''; return `${ex}${k}enum ${n} { ${ms.join(', ')} } $t(${this.id()}, ${k ? '1' : n});`; }],
      [d > 0 ? 3 : 0, () => { const n = this.fresh('N') + (r.p(0.3) ? '.Q' : ''); const body = Array.from({ length: r.range(1, 4) }, () => this.item({ ...c, loop: false, noret: true }, d - 1, true)).join(this.nl()); return `${ex}namespace ${n} {${this.nl()}${body}\n} $t(${this.id()}, ${n.split('.')[0]});`; }],
      [3, () => { const n = this.fresh('PC'); const sup = r.p(0.3); const ps = Array.from({ length: r.range(1, 3) }, () => `${r.pick(['public ', 'private ', 'readonly ', 'protected readonly ', ''])}${this.fresh('p')}${r.pick(['', ': any', '?: any'])}`).map((x) => (/\?/.test(x) || r.p(0.5) ? x : `${x} = ${this.t(c)}`)); const b = { ...c, fn: { kind: 'method' }, loop: false, labels: [] };
        return `${ex}class ${n}${sup ? ` extends (class { constructor() { ${this.t(b)}; } })` : ''} { ${r.p(0.5) ? `f = ${this.t(b)}; ` : ''}${r.p(0.3) ? 'declare dd: any; ' : ''}${r.p(0.3) ? `constructor(a: any, b?: any); ` : ''}constructor(${ps.map((x) => x.replace(/^((?:\w+ )*\w+)(: any)?$/, '$1?: any')).join(', ')}) { ${sup ? 'super(); ' : ''}${r.p(0.7) ? this.t(b) + '; ' : ''}${this.stmt(b, 1)} } ${r.p(0.5) ? `mm(this: any, x?: any): any { ${this.t(b)}; return ${this.e(b, 1)} }` : ''} } try { $t(${this.id()}, new ${n}(${this.e(c, 1)})); } catch (e) { $t(${this.id()}, e); }`; }],
      [1, () => { const n = this.fresh('AC'); return `${ex}abstract class ${n} { abstract x: number; abstract m(): void; n() { ${this.t(c)}; } static s = ${this.t(c)}; } $t(${this.id()}, ${n});`; }],
      [2, () => `${ex}function ${this.fresh('ov')}(a: string): void; `.replace(/function (\w+)(.*)/, (m, n, rest) => `function ${n}${rest}${ex}function ${n}(a?: any, b = ${this.t(c)}): any { ${this.t({ ...c, fn: { kind: 'fn' } })}; return ${this.e(c, 1)} } $t(${this.id()}, ${n}(${this.e(c, 1)}));`)],
      [2, () => `${ex}${r.pick(['const', 'let', 'var'])} ${this.fresh('v')}: any = ${r.pick([() => this.t(c), () => `(${this.e(c)}) as any`, () => `(${this.e(c)})!`, () => `(${this.e(c)}) satisfies any`, () => `<any>(${this.e(c)})`, () => `<T,>(x?: T) => ${this.t(c)}`])()};`],
      [1, () => { const v = this.fresh('v'); return `let ${v}: any; (${v} as any) = ${this.t(c)}; ${v}! ||= ${this.t(c)}; (<any>${v}) ??= ${this.t(c)}; $t(${this.id()}, ${v});`; }],
      [1, () => `($o as any).p1!?.x!.y${r.p(0.5) ? `![${this.t(c)}]` : ''};`],
      [this.o.sourceType === 'module' ? 1 : 0, () => { const n = this.fresh('M'), a = this.fresh('al'); return `${ex}namespace ${n} { export const q: any = ${this.t(c)}; export namespace R { export function z() { ${this.t(c)}; return q } } } ${ex}import ${a} = ${n}.R; $t(${this.id()}, ${a}.z());`; }],
      [1, () => { const n = this.fresh('mf'); return `${ex}function ${n}() { ${this.t(c)}; } ${ex}namespace ${n} { export const x = ${this.t(c)}; ${this.t(c)}; } $t(${this.id()}, ${n});`; }],
      [1, () => { const n = this.fresh('me'); return `${ex}enum ${n} { A = 1 } ${ex}enum ${n} { B = A + 1, C = ${this.t(c)} as any } $t(${this.id()}, ${n});`; }],
      [this.o.lower ? 3 : 0, () => { this.lowered = true; const n = this.fresh('DC'); const d1 = () => `@((...x: any[]): any => { ${this.t(c)}; })`; return `${d1()} class ${n} { ${d1()} m1() { ${this.t(c)}; } ${d1()} static p = ${this.t(c)}; ${r.p(0.5) ? `accessor q = ${this.t(c)};` : ''} } $t(${this.id()}, ${n});`; }],
      [this.o.lower ? 1 : 0, () => { this.lowered = true; return `{ using ${this.fresh('u')} = { [Symbol.dispose]() { ${this.t(c)}; } } as any; ${this.t(c)}; }`; }],
      [4, () => this.stmt(c, 2)],
    ])();
  }
  tsProgram() {
    const root = { vars: [], fn: { kind: 'top', async: false, gen: false }, labels: [], loop: false, brk: false, strict: this.o.sourceType === 'module', parent: null, cls: null };
    const n = this.r.range(2, 6); let out = this.o.sourceType === 'module' ? 'export {};\n' : ''; for (let i = 0; i < n; i++) out += this.item(root, 2, false) + this.nl();
    return out;
  }
}
const keyOf = (t) => { const m = /^(?:<any>|[(\s])*(?:(return|throw) [(\s]*)?\$t\((\d+),/.exec(t); return m && (m[1] ?? '') + m[2]; };
async function tsBehaviour(i, ctx, r) {
  const sourceType = r.p(0.5) ? 'module' : 'script'; const g = new TsGen(`${ctx.seed}/C15/${i}`, { sourceType, size: 20, lower: r.p(0.3), with: false }); const code = g.tsProgram();
  const opts = { ...(r.p(0.3) ? { reportLogic: true } : {}) }; const strip = r.p(0.75) ? 'after' : 'before'; const req = { code, filename: '/t/f.js', source_type: sourceType, syntax: 'ts', strip };
  const lower = (c) => { if (!g.lowered) return c; try { return esbuild().transformSync(c, { loader: 'ts', target: 'es2022', tsconfigRaw: { compilerOptions: { experimentalDecorators: i % 2 === 0, useDefineForClassFields: true } } }).code; } catch { return null; } };
  const p = await ctx.h.call({ op: 'plain', ...req }); if (!p.ok) { if (process.env.DBG) console.log(p.parse_error ?? p, '\n', code.slice(0, 800)); return { skips: { 'swc ts': 1 } }; }
  const x = await ctx.h.call({ op: 'instrument', ...req, options: { ...opts, debugInitialCoverageComment: true } }); const vs = []; const V = (sig, detail) => vs.push({ sig, detail, input: { code, sourceType, options: opts, strip } });
  if (!x.ok) { V('panic ' + String(x.panic ?? x.crash ?? x.parse_error).replace(/\d+/g, 'N').slice(0, 120), x); return { evals: 1, violations: vs }; }
  const j0 = lower(p.code), j2 = lower(x.code); if (j0 === null) return { skips: { esbuild: 1 } }; if (j2 === null) { V('output does not parse', {}); return { evals: 1, violations: vs }; }
  const r0 = await run(j0, { sourceType }); if (r0.syntax) return { skips: { 'not valid (v8)': 1 } }; if (r0.timeout || r0.fuelOut) return { skips: { 'does not terminate': 1 } };
  const r2 = await run(j2, { sourceType }); if (r2.syntax) { V('output does not parse', { e: r2.syntax }); return { evals: 1, violations: vs }; }
  if (r2.timeout) return { skips: { slow: 1 } };
  if (snapshot(r0) !== snapshot(r2)) { let j = 0; while (j < r0.trace.length && r0.trace[j] === r2.trace[j]) j++; V('behaviour', { at: j, before: r0.trace[j] ?? null, after: r2.trace[j] ?? null, completion: [short(r0.completion), short(r2.completion)] }); }
  // counts of traced statements and named functions, against probes in the stripped program
  const cov = covOf(r2); let checked = 0, events = 0; if (!cov) { V('no coverage', {}); return { evals: 1, violations: vs }; }
  let a = null; if (!g.lowered) try { a = analyze(j0, sourceType); } catch {}
  if (a) {
    const r1 = await run(a.probed, { sourceType, nprobes: a.nprobes });
    if (!r1.syntax && snapshot(r0) === snapshot(r1)) {
      const ref = new Map(), fns = new Map(); const lines = code.split(/\r\n|[\r\n]/);
      for (const it of a.items) {
        if (it.kind === 's') { const k = keyOf(j0.slice(it.node.start, it.node.start + 24)); if (k) ref.set(k, [...(ref.get(k) ?? []), r1.hits[it.id]]); }
        if (it.kind === 'f') { const n = it.method ? (it.method.kind === 'constructor' || it.method.computed ? null : it.method.key.type === 'PrivateIdentifier' ? '#' + it.method.key.name : it.method.key.name) : it.node.id?.name; if (n && new RegExp('(?<![\\w$])' + n.replace(/[$#]/g, '\\$&') + '(?![\\w$])').test(code)) /* swc renames some */ fns.set(n, [...(fns.get(n) ?? []), r1.hits[it.id]]); }
      }
      const got = new Map(), gotF = new Map();
      for (const [k, q] of Object.entries(cov.statementMap)) { const key = keyOf((lines[q.start.line - 1] ?? '').slice(q.start.column)); if (key) got.set(key, [...(got.get(key) ?? []), cov.s[k]]); }
      for (const [k, f] of Object.entries(cov.fnMap)) gotF.set(f.name, [...(gotF.get(f.name) ?? []), cov.f[k]]);
      const same = (p1, q1) => String([...p1].sort()) === String([...q1].sort());
      for (const [k, l] of ref) { if (!got.has(k)) { if (l.length === 1) V('s missing', { key: k, want: l }); continue; } checked++; events += l[0]; if (!same(l, got.get(k))) V('s count', { key: k, got: got.get(k), want: l }); }
      for (const [k, l] of fns) { checked++; events += l[0]; if (!gotF.has(k) || !same(l, gotF.get(k))) V('f count', { name: k, got: gotF.get(k), want: l }); }
    }
  }
  const st = compareStructure(cov, j2, x.cov_comments[0] ? JSON.parse(x.cov_comments[0]) : null); for (const d of st.dev) if (!/without increment/.test(d.sig) && !GENERATED(strip, d)) V(d.sig, d.detail);
  return { evals: 1, keys: [code], counters: { programs: 1, counters_checked: checked, hits_observed: events, entries: Object.keys(cov.s).length }, features: ['ts behaviour', ...(g.lowered ? ['decorators, accessors, using'] : []), 'strip ' + strip], sample: { code: short(code, 200) }, violations: vs.slice(0, 3) };
}
// ---- deep and long programs
const R = (s, n) => s.repeat(n);
const SHAPES = {
  and: (n) => 'x = ' + Array(n).fill('a').join(' && '), mixed: (n) => 'x = ' + R('(a && b || (c ?? d)) && ', n) + 'e', cond: (n) => 'x=' + R('a?b:', n) + 'c', condLeft: (n) => 'x=' + R('(a?', n) + 'b' + R(':c)', n), paren: (n) => 'x=' + R('(', n) + 'a&&b' + R(')', n), block: (n) => R('{', n) + 'a;' + R('}', n),
  ifs: (n) => R('if(a){', n) + 'b;' + R('}', n), bareIfs: (n) => R('if(a)', n) + 'b;', elses: (n) => R('if(a){}else ', n) + 'b;', fn: (n) => R('function f(){', n) + R('}', n), arrow: (n) => 'x=' + R('()=>', n) + '1', array: (n) => 'x=' + R('[', n) + R(']', n), call: (n) => 'x=a' + R('()', n), member: (n) => 'x=a' + R('.b', n), template: (n) => 'x=' + R('`${', n) + 'a' + R('}`', n), statements: (n) => R('a();', n),
  labels: (n) => Array.from({ length: n }, (_, i) => 'l' + i + ':').join('') + 'a();', loops: (n) => R('for(;;)', n) + 'a();', whiles: (n) => R('while(a)', n) + 'a();', classes: (n) => 'x=' + R('class{ p=', n) + '1' + R('}', n), switches: (n) => R('switch(a){case 1:', n) + R('}', n), tries: (n) => R('try{', n) + R('}finally{}', n), seq: (n) => 'x=(' + R('a,', n) + 'b)', defaults: (n) => 'var [' + R('{a=', n) + '1' + R('}={}', n) + ']=[]', cases: (n) => 'switch(a){' + R('case 1:b;', n) + '}', params: (n) => 'function f(' + Array.from({ length: n }, (_, i) => `p${i}=1`).join(',') + '){}', vars: (n) => 'var ' + Array.from({ length: n }, (_, i) => `v${i}=1`).join(','), methods: (n) => 'class C{' + R('m(){}', n) + '}', comments: (n) => R('/* istanbul ignore next */', n) + 'a;', calls: (n) => R('f(', n) + R(')', n), fnExprs: (n) => R('(function(){', n) + R('})()', n), objs: (n) => 'x=' + R('{a:', n) + '1' + R('}', n), tagged: (n) => 'x=a' + R('`x`', n),
};
async function deep(i, ctx, r) {
  const name = r.pick(Object.keys(SHAPES)); const n = r.pick([3, 30, 90, 150]); const code = SHAPES[name](n); const opts = options(r); delete opts.ignoreClassMethods; const t0 = Date.now();
  const s = await statically(ctx.h, code, { sourceType: 'script', syntax: 'es', strip: 'none', opts, against: name !== 'comments' }); const ms = Date.now() - t0;
  if (!s.ok) return { skips: { 'swc deep': 1 } };
  return { evals: 1, keys: [code], counters: { programs: 1, entries_compared: s.checked ?? 0, longest_ms: 0 }, features: ['deep ' + name], sample: { name, n, ms }, violations: s.vs.slice(0, 3).map((v) => ({ ...v, input: { code, options: opts } })) };
}
async function generated(i, ctx, r, jsx) {
  const c = config('C15', i, ctx); const rl = r.p(0.3); const sh = !jsx && r.p(0.5) ? shape(r.int(SHAPE_COUNT())) : null; if (sh) c.sourceType = sh.sourceType; const g = sh ?? generate(c.seedText, { ...c, size: 20, with: jsx, jsx }); let js = g.code, request = {}, extra = [];
  if (!jsx) { let d; try { d = decorate(r, g.code, c.sourceType, { rate: r.pick([0.15, 0.4, 0.7]) }); } catch { return { skips: { 'not valid': 1 } }; } js = d.js; request = { code: d.ts, syntax: 'ts', strip: r.p(0.75) ? 'after' : 'before' }; extra = Object.keys(d.kinds).map((k) => 'ts ' + k); }
  const e = await evalProgram(ctx.h, js, { sourceType: c.sourceType, options: rl ? { reportLogic: true } : {}, refOpts: { reportLogic: rl, jsx }, request, structure: jsx });
  if (e.status === 'skip') return { skips: { [(jsx ? 'jsx ' : 'ts ') + e.why.split(':')[0]]: 1 } };
  return { evals: 1, keys: e.checked ? [request.code ?? js] : [], counters: { programs: 1, counters_checked: e.checked, hits_observed: e.events }, features: jsx ? [...g.features].filter((x) => /^jsx/.test(x)) : extra, sample: { code: short(request.code ?? js, 200) },
    violations: e.dev.filter((d) => CATS.has(d.cat)).slice(0, 3).map((d) => ({ sig: d.sig, detail: d.detail, input: { code: request.code ?? js, sourceType: c.sourceType, request: { ...request, code: undefined }, reportLogic: rl } })) };
}
const C15 = {
  asan: true, level: 'exploration', technique: 'execution monitor over programs of every syntax: panics, validity of the output for an independent parser, structure of the data; counters and behaviour where the program can run (TypeScript against the same program with the types blanked or stripped, JSX compiled by swc)',
  rule: 'By case number: random programs and shapes (every form in every position) with type-only TypeScript inserted, random JSX programs, random TypeScript with namespaces, enums, parameter properties, decorators and overloads, real programs of the corpus (JavaScript, TypeScript, declarations, JSX, TSX) with random options, real programs with nodes of others spliced in, deeply nested and long programs; non-trivial: the data had entries; distinct by text.',
  assumptions: ['what swc itself rejects, or prints as invalid JavaScript without instrumentation, gives no verdict', 'the files installed under /opt/veriftools/node and /usr/share/javascript are the corpus'],
  plan: { quick: { cases: 3600, maxMs: 400000, caseMs: 20000 }, thorough: { cases: 40000, maxMs: 3000000, caseMs: 30000 } },
  async run(i, ctx) {
    const r = new Rng(`${ctx.seed}/C15/${i}`, 'kind');
    switch (i % 9) {
      case 0: case 1: return generated(i, ctx, r, false);
      case 2: return generated(i, ctx, r, true);
      case 3: case 4: return tsBehaviour(i, ctx, r);
      case 5: case 6: return corpusCase(i, ctx, r);
      case 7: { const s = spliced(r); if (!s) return { skips: { 'no splice': 1 } }; return one(ctx, r, s.code, { kind: 'js', file: s.f, against: true, feature: 'spliced' }); }
      default: return i % 27 === 8 ? deep(i, ctx, r) : corpusCase(i, ctx, r);
    }
  },
};
export const totality = { C15 };
