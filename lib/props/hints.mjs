// C08: ignore hints. A hint is put in front of nodes of a generated program; the reference model then has no
// counters for what the hint excludes, and everything else must be as always.
import { Rng } from '../rng.mjs';
import { generate } from '../gen.mjs';
import { analyze, children, parse, ELIGIBLE } from '../ref.mjs';
import { evalProgram } from '../evalprog.mjs';
import { run, snapshot } from '../run.mjs';
import { count as SHAPES, shape } from '../shapes.mjs';
import { config } from './programs.mjs';

const isParen = (n) => n.type === 'ParenthesizedExpression';
const unparen = (n) => { while (isParen(n)) n = n.expression; return n; };
const isStmt = (n) => (/Statement$/.test(n.type) && n.type !== 'EmptyStatement') || /Declaration$/.test(n.type);
const countable = (n) => children(n).some(([, c]) => ELIGIBLE(c) || countable(c));
/** places where a hint has a defined effect: {n, what} */
export function places(ast) {
  const out = [];
  (function walk(n, parent, key) {
    const start = (x) => x.start;
    if (parent) {
      const shared = start(parent) === start(n) && parent.type !== 'Program';
      if (isStmt(n) && !/^Export/.test(parent.type) && n.directive === undefined && !shared && !/^Import|^ExportAll/.test(n.type)) {
        // a declaration in a for head is no statement of its own
        if (!(/^For/.test(parent.type) && (key === 'init' || key === 'left'))) out.push({ n, what: n.type === 'IfStatement' ? 'IfStatement' : 'stmt', type: n.type });
      }
      if (n.type === 'MethodDefinition' || n.type === 'PropertyDefinition') out.push({ n, what: 'class member', type: n.type });
      if (n.type === 'Property' && parent.type === 'ObjectExpression' && (n.method || n.kind !== 'init')) out.push({ n, what: 'object member', type: n.type + n.kind });
      if (n.type === 'SwitchCase') out.push({ n, what: 'case', type: n.type });
      if (n.type === 'VariableDeclarator' && !shared && parent.declarations[0] !== n) out.push({ n, what: 'declarator', type: n.type });
      const arm = parent.type === 'ConditionalExpression' && key !== 'test'; const leaf = parent.type === 'LogicalExpression' && key === 'right'; const dflt = parent.type === 'AssignmentPattern' && key === 'right';
      if (!shared && !isParen(parent)) {
        const u = unparen(n);
        const fn = (u.type === 'FunctionExpression' || u.type === 'ArrowFunctionExpression') && !(parent.type === 'MethodDefinition' || parent.type === 'Property' || parent.type === 'PropertyDefinition');
        // what else begins at the same place and could be meant
        let inner = false; (function down(x, p) { const t = unparen(x); if (ELIGIBLE(t) && t !== u) inner = true; const c = children(t)[0]; if (c && c[1].start === t.start) down(c[1]); })(u);
        const lead = /^(Yield|Await|ReturnStatement|Throw|Unary|Update|Spread)/.test(parent.type) && /^(Yield|Return|Throw)/.test(parent.type);
        if (!lead && !inner && (arm || leaf || dflt || fn || u.type === 'ConditionalExpression' || u.type === 'LogicalExpression') && (parent.type !== 'ArrowFunctionExpression' || key !== 'body') && parent.type !== 'TemplateLiteral')
          if (ELIGIBLE(u) || (!isParen(n) && (arm || leaf || dflt) && !countable(n))) out.push({ n, what: arm ? 'arm' : dflt ? 'default' : leaf ? 'operand' : 'expr', type: u.type });
      }
    }
    for (const [k, c] of children(n)) walk(c, n, k);
  })(ast, null, '');
  return out;
}
/** hints in front of paths of branches */
export function hintPaths(r, code, sourceType, rate) {
  const l = places(parse(code, sourceType).ast).filter((p) => ['arm', 'operand', 'default'].includes(p.what) && r.p(rate)); const seen = new Set();
  const { code: text, at } = insertAll(code, l.filter((p) => !seen.has(p.n.start) && seen.add(p.n.start)).map((p) => ({ pos: p.n.start, text: ' /* istanbul ignore next */ ' })));
  return { code: text, hints: at.map((x) => ({ start: x.start, kind: 'next' })) };
}
const NEXT = ['/* istanbul ignore next */', '// istanbul ignore next', '/*istanbul ignore next*/', '/* istanbul  ignore\tnext: reason */', '/* istanbul ignore next -- why */', '//istanbul ignore next', '/*\n istanbul ignore next\n*/'];
const IFS = (k) => [`/* istanbul ignore ${k} */`, `// istanbul ignore ${k}`, `/* istanbul ignore ${k}: reason */`];
export const NEUTRAL = ['/* istanbul ignore nextt */', '/* please istanbul ignore next */', '/** istanbul ignore next */', '// Istanbul ignore next', '/* istanbul ignore */', '/* c8 ignore next */', '/* istanbul-ignore next */', '/* ignore next */', '// istanbul ignore', '/* istanbul ignore elsewhere */', '/* istanbul ignore iffy */', '/* v8 ignore next */', '/* istanbul ignore\u200bnext */', '/* istanbul ignored next */', '//'];
const blank = (t) => t.replace(/istanbul/g, 'xxxxxxxx');

/** inserts texts (own lines) at positions; gives the new code and the new position of each */
export function insertAll(code, list) {
  const l = [...list].sort((a, b) => a.pos - b.pos); let out = '', last = 0; const at = [];
  for (const x of l) { out += code.slice(last, x.pos); out += x.text; at.push({ ...x, start: out.length }); last = x.pos; }
  return { code: out + code.slice(last), at };
}
const COUNTS = new Set(['s', 'f', 'b', 'bT', 'behaviour', 'syntax', 'panic', 'nocov']);

const NEARFILE = ['/** istanbul ignore file */', '/*! istanbul ignore file */', '/* * istanbul ignore file */', '/* please istanbul ignore file */', '// Istanbul ignore file', '/* istanbul ignore files */', '/* istanbul ignore file2 */', '/* istanbul ignore */', '/* istanbul-ignore file */', '/* istanbul ignore the file */', '/* ignore file */', '/* c8 ignore file */', '/* istanbul ignorefile */', '/* istanbul ignore filename */', '/*-istanbul ignore file */', '//! istanbul ignore file', '/* istanbul ignore_file */', '/*\n * istanbul ignore file\n */', '/* v8 istanbul ignore file */', '/* @istanbul ignore file */', '/* "istanbul ignore file" */'];
/** comments which nearly are a file hint: as if another word stood there */
async function nearFileHint(r, code, c, ctx) {
  const hint = r.pick(NEARFILE); const other = hint.replace(/istanbul/ig, 'xxxxxxxx').replace(/^\/\* (c8 )?ignore/, (m) => m.replace('ignore', 'xxxxxx')); const top = r.pick(['', '', '/* licence */\n', '\n']);
  const [q, w] = [hint, other].map((h) => top + h + '\n' + code); const rq = { op: 'instrument', filename: '/t/f.js', source_type: c.sourceType, options: {} };
  const x = await ctx.h.call({ ...rq, code: q }), y = await ctx.h.call({ ...rq, code: w });
  if (!y.ok) return { skips: { swc: 1 } };
  const vs = []; if (!x.ok || x.code.split(hint).join(other) !== y.code.split(hint).join(other)) vs.push({ sig: 'neutral: file comment has an effect', detail: { hint, at: x.code?.slice(0, 200) }, input: { code: q, sourceType: c.sourceType } });
  return { evals: 1, keys: [q], features: ['near file hint'], counters: { near_file_hints: 1 }, violations: vs };
}
async function fileHint(r, code, c, ctx) {
  if (r.p(0.5)) return nearFileHint(r, code, c, ctx);
  const before = r.pick(['', '', '/* licence */\n', '// @flow\n', '\n\n', '\t']); const after = r.pick(['\n', '\n/* more */\n', '\n\n']);
  const hint = r.pick(['/* istanbul ignore file */', '// istanbul ignore file', '/*istanbul ignore file*/', '/* istanbul ignore file: generated */', '/*\n  istanbul   ignore file\n*/']);
  const src = before + hint + after + code;
  const q = await ctx.h.call({ op: 'instrument', code: src, filename: '/t/f.js', source_type: c.sourceType, options: {} });
  const p = await ctx.h.call({ op: 'plain', code: src, filename: '/t/f.js', source_type: c.sourceType });
  if (!p.ok) return { skips: { swc: 1 } };
  const vs = []; if (!q.ok) vs.push({ sig: 'ignored file fails', detail: q }); else if (q.code !== p.code) vs.push({ sig: 'ignored file is instrumented', detail: { hint, at: q.code.slice(0, 300) } });
  return { evals: 1, keys: [src], features: ['file hint'], counters: { files_ignored: 1 }, sample: { code: src.slice(0, 200) }, violations: vs.map((v) => ({ ...v, input: { code: src, sourceType: c.sourceType } })) };
}

export const hints = { C08: {
  level: 'exploration', technique: 'metamorphic hints: every counter of a program with hints against a reference that excludes exactly the hinted nodes, with the same comment made neutral as control',
  note: 'Held for the programs and hints explored (numbers in the evidence file). Trusts V8, acorn and the reference model in lib/ref.mjs. Hints which stand after other code on the same line are not covered.',
  rule: 'Seeded random programs and random groups of shapes (every form in every position) with one to three hints on lines of their own before statements, members, functions, arms, operands, cases or declarators, or a file hint, or comments which are nearly hints; non-trivial: the program ran and a hint excluded at least one counter (or must exclude none); distinct by source text.',
  assumptions: ['hints in front of expressions Istanbul has no visitor for have no effect on what is in them', 'if several hints precede a node, they say the same'],
  fixedCases: 1,
  plan: { quick: { cases: 4500, maxMs: 400000 }, thorough: { cases: 40000, maxMs: 3000000 } },
  async run(i, ctx) {
    if (i === -1) { // known: hints behind other code on the same line
      const code = 'var a = 1; /* istanbul ignore next */ a = 2;\n'; const q = await ctx.h.call({ op: 'instrument', code, filename: '/t/f.js', source_type: 'script', options: { debugInitialCoverageComment: true } });
      const n = Object.keys(JSON.parse(q.cov_comments[0]).s).length;
      return { evals: 1, keys: [], counters: {}, violations: n === 1 ? [] : [{ sig: 'hint after code on the same line', detail: { code, statements: n }, input: { code } }] };
    }
    const c = config('C08', i, ctx); const r = new Rng(c.seedText, 'hints'); const rl = i % 6 === 5;
    const sh = i % 2 === 0 && i % 8 !== 6 ? shape(r.int(SHAPES())) : null; if (sh) c.sourceType = sh.sourceType;
    const { code } = sh ?? generate(c.seedText, { ...c, directives: false, lead: true });
    if (i % 8 === 7) return fileHint(r, code, c, ctx);
    let ast; try { ast = parse(code, c.sourceType).ast; } catch { return { skips: { 'not valid': 1 } }; }
    const ps = places(ast).filter((p) => !sh || p.n.start >= sh.head); if (!ps.length) return { skips: { 'no place': 1 } };
    const byKind = new Map(); for (const p of ps) { const k = p.what === 'stmt' ? p.type : p.what; (byKind.get(k) ?? byKind.set(k, []).get(k)).push(p); }
    const neutral = r.p(0.15); const n = neutral ? r.range(1, 4) : sh ? r.range(2, sh.items.length + 2) : r.weighted([[6, 1], [3, 2], [1, 3]]); const ins = new Map();
    const features = [];
    for (let k = 0; k < n; k++) {
      let p = r.pick(byKind.get(r.pick([...byKind.keys()]))); if (p.what === 'IfStatement' && r.p(0.6)) { const l = byKind.get('IfStatement'); const q = l.filter((x) => [x.n.consequent, x.n.alternate].some((y) => y?.type === 'IfStatement')); if (q.length) p = r.pick(q); }
      if (ins.has(p.n.start)) continue;
      let kind = 'next'; if (p.what === 'IfStatement') kind = r.pick(['next', 'if', 'else']); else if (r.p(0.06)) kind = r.pick(['if', 'else']);
      if (p.type === 'BlockStatement' && kind !== 'next') continue;
      const t = neutral ? r.pick(NEUTRAL) : kind === 'next' ? r.pick(NEXT) : r.pick(IFS(kind));
      const extra = r.p(0.1) ? r.pick(['/* other */ ', '// other\n']) : ''; const extra2 = r.p(0.1) ? r.pick(['/* other */', '// other\n', '\n']) : '';
      const inline = ['arm', 'operand', 'default'].includes(p.what) && t.startsWith('/*') && !t.includes('\n') && r.p(0.3);
      if (inline) { ins.set(p.n.start, { pos: p.n.start, text: ' ' + t + r.pick([' ', '', '\n']), kind: neutral ? null : kind, what: p.what, type: p.type, inline }); features.push('inline ' + p.what); continue; }
      ins.set(p.n.start, { pos: p.n.start, text: '\n' + extra + t + '\n' + extra2, kind: neutral ? null : kind, what: p.what, type: p.type });
      features.push((neutral ? 'neutral ' : kind + ' ') + p.what + ' ' + p.type);
    }
    const { code: hinted, at } = insertAll(code, ins.values());
    const hintList = at.filter((x) => x.kind).map((x) => ({ start: x.start, kind: x.kind }));
    const options = rl ? { reportLogic: true } : {};
    const e = await evalProgram(ctx.h, hinted, { sourceType: c.sourceType, options, refOpts: { reportLogic: rl, hints: hintList } });
    if (e.status === 'skip') return { skips: { [e.why.split(':')[0]]: 1 } };
    let dev = e.dev.filter((d) => COUNTS.has(d.cat));
    let full = null; try { full = analyze(hinted, c.sourceType, { reportLogic: rl }); } catch {}
    const all = (a) => a.items.reduce((q, x) => q + (x.ids ? x.ids.length : 1), 0);
    const removed = full ? all(full) - all(e.a) : 0;
    if (dev.length) { // the same with hints that are none: what deviates there as well is not about hints
      const ctl = insertAll(code, [...ins.values()].map((x) => ({ ...x, text: blank(x.text) }))).code;
      const b = await evalProgram(ctx.h, ctl, { sourceType: c.sourceType, options, refOpts: { reportLogic: rl } });
      if (b.status === 'skip') return { skips: { control: 1 } };
      const sigs = new Set(b.dev.map((d) => d.sig)); dev = dev.filter((d) => !sigs.has(d.sig));
    }
    return { evals: 1, keys: removed || neutral || hintList.every((x) => x.kind !== 'next') ? [hinted] : [], features,
      counters: { programs: 1, hints: hintList.length, neutral_comments: neutral ? at.length : 0, counters_excluded: removed, counters_checked: e.checked, hits_observed: e.events },
      sample: { case: i, hints: at.map((x) => [x.kind, x.what, x.type, x.text.trim()]), excluded: removed, code: hinted.slice(0, 300) },
      violations: dev.slice(0, 3).map((d) => ({ sig: (neutral ? 'neutral: ' : '') + d.sig, detail: { ...d.detail, hints: at.map((x) => [x.kind, x.what, x.type, x.start]) }, input: { code: hinted, sourceType: c.sourceType, reportLogic: rl } })) };
  },
} };
