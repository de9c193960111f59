// Properties decided on generated programs: original, probed and instrumented executions compared.
import { Rng } from '../rng.mjs';
import { generate } from '../gen.mjs';
import { evalProgram } from '../evalprog.mjs';
import { run, snapshot } from '../run.mjs';
import { parse, children } from '../ref.mjs';
import { names as PACKAGES, evalPackage } from '../real.mjs';
import { loadFixtures, replay } from '../fixtures.mjs';
import { count as SHAPES, shape } from '../shapes.mjs';

const ASSUME = [
  'V8 executes programs correctly; acorn, whose AST the reference model uses, parses them correctly',
  'programs terminate within the fuel of the host functions; those that do not are skipped',
  'names of functions which are default values or values of class fields, and Function.prototype.toString, are not observed',
];
const RULE = 'Seeded random JavaScript programs (scripts and modules) over all statement, expression, function, class and pattern forms, whose behaviour is traced by host functions, the packages of npm in this sandbox driven by scripts, the fixtures of the repository, and every expression form in every position of an expression and every statement form in every position of a statement (some 75,000 shapes); non-trivial: original, probed and instrumented program all ran, and at least one counter was checked; distinct by source text.';

/** configuration of case i: spreads source types, sizes, directives, reportLogic */
export function config(prop, i, ctx) {
  const st = i % 2 ? 'module' : 'script';
  const size = [14, 26, 26, 40, 80][Math.floor(i / 2) % 5];
  const directives = Math.floor(i / 10) % 2 === 1;
  return { sourceType: st, size, directives, seedText: `${ctx.seed}/${prop}/${i}` };
}
const FIX = 127;
function makeProp(id, cats, { quick = 5000, thorough = 40000, reportLogic = () => false, fixtures = null, extra = [], filter, options, transform, request } = {}) {
  const keep = (dev) => dev.filter((d) => cats.has(d.cat) && (!filter || filter(d)));
  /** a package of npm: its own files, driven by a script */
  async function packageCase(k, ctx) {
    const name = PACKAGES[k]; const e = await evalPackage(ctx.h, name, ctx.seed, { reportLogic: id === 'C05' || reportLogic(k), structure: id === 'C06' });
    if (e.status === 'skip') return { skips: { ['package: ' + e.why.split(':')[0]]: 1 } };
    return { evals: 1, keys: ['package ' + name], counters: { packages: 1, package_files: e.files ?? 0, counters_checked: e.checked ?? 0, hits_observed: e.events ?? 0, trace_events: e.log ?? 0, ...(id === 'C06' ? { increment_sites: e.sites ?? 0 } : {}) },
      violations: keep(e.dev).slice(0, 4).map((d) => ({ sig: d.sig, detail: d.detail, input: { package: name } })) };
  }
  async function extraCase(k, ctx) {
    const { code, sourceType = 'script', rl = false } = extra[k];
    const x = await ctx.h.call({ op: 'instrument', code, filename: '/t/f.js', source_type: sourceType, options: rl ? { reportLogic: true } : {} });
    const a = await run(code, { sourceType }), b = await run(x.code ?? ')', { sourceType });
    const vs = a.syntax || snapshot(a) === snapshot(b) ? [] : [{ sig: 'behaviour: ' + extra[k].name, detail: { before: a.trace, after: b.trace, syntax: b.syntax } }];
    return { evals: 1, keys: [code], counters: { programs: 1, trace_events: a.trace.length }, violations: vs.slice(0, 1).map((d) => ({ sig: d.sig, detail: d.detail, input: { code, reportLogic: rl } })) };
  }
  /** a group of shapes; the shapes one by one if together they give no verdict */
  async function shapeCase(k, ctx) {
    const g = shape(k); const rl = id === 'C05' || reportLogic(k); const codes = [g.code]; const counters = { shape_groups: 1 }, keys = [], violations = [], skips = {};
    for (let j = 0; j < codes.length; j++) {
      const code = codes[j];
      const e = await evalProgram(ctx.h, code, { sourceType: g.sourceType, options: { ...(rl ? { reportLogic: true } : {}), ...(options?.(k) ?? {}) }, refOpts: { reportLogic: rl }, structure: id === 'C06', request: request?.(k) ?? {} });
      if (e.status === 'skip') { if (!j && g.alone.length) codes.push(...g.alone); else { const why = 'shape: ' + e.why.split(':')[0]; skips[why] = (skips[why] ?? 0) + 1; } continue; }
      const one = { programs: 1, shapes: j ? 1 : g.items.length, counters_checked: e.checked ?? 0, hits_observed: e.events ?? 0, trace_events: e.r0?.trace.length ?? 0, ...(id === 'C06' ? { increment_sites: e.sites ?? 0 } : {}) };
      for (const c in one) counters[c] = (counters[c] ?? 0) + one[c];
      if (e.checked || cats.has('behaviour')) keys.push(code);
      violations.push(...keep(e.dev).slice(0, 4).map((d) => ({ sig: d.sig, detail: { shape: g.name, ...d.detail }, input: { code, sourceType: g.sourceType, reportLogic: rl } })));
    }
    return { evals: keys.length, keys, counters, skips, features: keys.length ? ['shape:' + g.name] : [], violations: violations.slice(0, 4) };
  }
  const before = (fixtures ? FIX : 0) + PACKAGES.length + extra.length;
  return {
    rule: RULE, assumptions: ASSUME, level: 'exploration',
    fixedCases: before + SHAPES(),
    plan: { quick: { cases: quick, maxMs: 400000, caseMs: 30000 }, thorough: { cases: thorough, maxMs: 3000000, caseMs: 30000 } },
    async run(i, ctx) {
      if (i < 0) { const k = -1 - i - (fixtures ? FIX : 0); return k < 0 ? fixtureCase(-1 - i, ctx, fixtures) : k < PACKAGES.length ? packageCase(k, ctx) : -1 - i < before ? extraCase(k - PACKAGES.length, ctx) : shapeCase(-1 - i - before, ctx); }
      const c = config(id, i, ctx); const rl = reportLogic(i);
      let { code, features } = generate(c.seedText, transform === layout ? { ...c, astral: true } : c); const tr = transform?.(i, new Rng(c.seedText, 'text')); if (tr) { code = tr.f(code); for (const x of tr.what) features.add(x); }
      const e = await evalProgram(ctx.h, code, { sourceType: c.sourceType, options: { ...(rl ? { reportLogic: true } : {}), ...(options?.(i) ?? {}) }, refOpts: { reportLogic: rl }, structure: id === 'C06', request: request?.(i) ?? {} });
      if (e.status === 'skip') return { skips: { [e.why.split(':')[0]]: 1 } };
      let vs = keep(e.dev);
      // what the truthiness counters do to the program, leaving aside what happens without them
      if (id === 'C05' && rl && !vs.length && e.dev.some((d) => d.cat === 'behaviour')) {
        const without = await evalProgram(ctx.h, code, { sourceType: c.sourceType, options: {}, refOpts: {} });
        if (!without.dev?.some((d) => d.cat === 'behaviour')) vs = e.dev.filter((d) => d.cat === 'behaviour');
      }
      const counters = { programs: 1, counters_checked: e.checked ?? 0, hits_observed: e.events ?? 0, trace_events: e.r0?.trace.length ?? 0, ...(id === 'C06' ? { increment_sites: e.sites ?? 0, unparsed: e.unparsed ? 1 : 0 } : {}) };
      return { evals: 1, keys: e.checked || cats.has('behaviour') ? [code] : [], counters, features: [...features].map((f) => c.sourceType[0] + ':' + f),
        sample: { case: i, sourceType: c.sourceType, code: code.slice(0, 400), counters },
        violations: vs.slice(0, 4).map((d) => ({ sig: d.sig, detail: d.detail, input: { code, sourceType: c.sourceType, reportLogic: rl } })) };
    },
  };
}
let docs = null;
async function fixtureCase(k, ctx, want) {
  docs ??= loadFixtures(); const doc = docs[k];
  if (!doc) return { skips: { 'no fixture': 1 } };
  const bad = (await replay(ctx.h, doc)).filter((b) => want.some((w) => b.what.startsWith(w)));
  return { evals: 1, keys: ['fixture ' + doc.file + doc.name], counters: { fixtures: 1, fixture_runs: (doc.tests ?? []).length },
    violations: bad.slice(0, 2).map((b) => ({ sig: 'fixture: ' + b.what.split(' (')[0].slice(0, 40), detail: { fixture: doc.file + '/' + doc.name, ...b }, input: { code: doc.code } })) };
}
/** other line terminators, non-ASCII text before and between the nodes, byte order mark */
function layout(i, r) {
  const what = [], fs = [];
  if (r.p(0.5)) { const t = r.pick(['é', '😀', '日本', '\u0301', '\u200d😀é', '\u2028']); what.push('comment text'); fs.push((c) => c.replace(/\/\* c \*\//g, `/* ${t} */`).replace(/\/\*\n m\n \*\//g, `/*\n ${t}\n${t} */`).replace(/\/\/ l\n/g, t === '\u2028' ? '// l\n' : `// ${t}\n`)); }
  if (r.p(0.3)) { what.push('first line'); const t = r.pick(['/* 😀é */', '/*\n*/ ', '\t\t', '\u00a0\u3000', '\f\v', '/**/'.repeat(30)]); fs.push((c) => t + c); }
  if (r.p(0.3)) { what.push('names'); const t = r.pick(['é', '日', '𝒳', '\u200c']); fs.push((c) => c.replace(/\b(v|p|nm|m)(\d+)\b/g, (m, a, b) => (b.length > 1 || a === 'v' || a === 'p' && +b > 2 ? a + t + b : m))); }
  if (r.p(0.45)) { const t = r.pick(['\r\n', '\r\n', '\r']); what.push(JSON.stringify(t)); fs.push((c) => c.replace(/\n/g, t)); }
  else if (r.p(0.2)) { what.push('mixed'); fs.push((c) => c.replace(/\n/g, () => r.pick(['\n', '\r\n', '\r']))); }
  if (r.p(0.04)) { const k = 65500 + r.int(600); const t = r.pick([' '.repeat(k), '\n'.repeat(k), `/*${'é'.repeat(k)}*/`]); what.push('far'); fs.push((c) => t + c); }
  if (r.p(0.1)) { what.push('bom'); fs.push((c) => '\ufeff' + c); }
  return { what, f: (c) => fs.reduce((x, f) => f(x), c) };
}
/** hints in front of arms, operands, cases, defaults and ifs, often in front of all of one branch */
function hinted(i, r) {
  if (i % 4 !== 1) return null;
  return { what: ['hints'], f(code) {
    let ast; try { ast = parse(code, i % 2 ? 'module' : 'script').ast; } catch { return code; }
    const at = new Map(); const H = ' /* istanbul ignore next */ ';
    (function walk(n) {
      const l = n.type === 'ConditionalExpression' ? [n.consequent, n.alternate] : n.type === 'LogicalExpression' ? [n.left, n.right] : n.type === 'SwitchStatement' ? n.cases : n.type === 'AssignmentPattern' ? [n.right] : [];
      if (l.length && r.p(0.35)) { const p = r.pick([0.5, 1, 1]); for (const x of l) if (r.p(p)) at.set(x.start, H); }
      if (n.type === 'IfStatement' && r.p(0.2)) at.set(n.start, ` /* istanbul ignore ${r.pick(['if', 'else', 'next'])} */ `);
      if (/Function|MethodDefinition|PropertyDefinition/.test(n.type) && r.p(0.05)) at.set(n.start, H);
      for (const [, c] of children(n)) walk(c);
    })(ast);
    let out = '', last = 0; for (const [p, t] of [...at].sort((a, b) => a[0] - b[0])) { out += code.slice(last, p) + t; last = p; }
    return out + code.slice(last);
  } };
}
const set = (...x) => new Set(x);
const EXTRA_C05 = [
  { name: 'proxy operand', rl: true, code: "var p = new Proxy({}, { getPrototypeOf() { $t(1, 'prototype'); return Object.prototype; }, ownKeys() { $t(2, 'keys'); return []; } }); $t(3, (p || 1) === p);" },
];
export const programs = {
  C01: makeProp('C01', set('behaviour', 'syntax'), { reportLogic: (i) => i % 5 === 4, fixtures: ['out', 'throw', 'compile'] }),
  C02: makeProp('C02', set('s', 'nocov'), { fixtures: ['statements', 'lines', 'nocov'] }),
  C03: makeProp('C03', set('f', 'nocov'), { fixtures: ['functions', 'nocov'] }),
  C04: makeProp('C04', set('b', 'nocov'), { fixtures: ['branches (', 'nocov'] }),
  C05: makeProp('C05', set('bT', 'nocov'), { reportLogic: (i) => i % 8 !== 7, fixtures: ['branchesTrue'], extra: EXTRA_C05 }),
  C06: makeProp('C06', set('struct', 'nocov'), { reportLogic: (i) => i % 3 === 2, transform: hinted }),
  C07: makeProp('C07', set('loc', 's', 'f', 'b', 'panic', 'syntax'), { transform: layout, request: (i) => (i % 5 === 3 ? { pad: 1 + (i * 7919) % 100000 } : {}) }),
};
