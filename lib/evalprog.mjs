// One observed evaluation of a program: original, probed original (reference counts) and instrumented program
// run in fresh realms; all deviations of the instrumented one from the reference, by category.
import { analyze, rkey, locator } from './ref.mjs';
import { run, snapshot } from './run.mjs';
import { acorn } from './istanbul.mjs';

export const PATH = '/t/f.js';
const strip = (cov) => JSON.parse(JSON.stringify(cov, (k, v) => (/_temp$/.test(k) ? undefined : v)));

/** Coverage of `path` as plain data, or null. A value the program put in a temporary may not be serialisable. */
export function covOf(r, path = PATH) {
  if (!r.coverage) return null;
  let o; try { o = strip(r.coverage); } catch { return undefined; }
  return o[path] ?? null;
}
export const short = (s, n = 300) => (s.length > n ? s.slice(0, n) + '…' : s);

/** deviations of coverage `cov` from the analysis `a` with reference counts `hits` */
export function compareCounts(a, hits, cov, code, { reportLogic = false } = {}) {
  const dev = []; const d = (cat, sig, detail) => dev.push({ cat, sig, detail });
  const src = (n) => short(code.slice(n.start, n.end), 120);
  let events = 0, checked = 0;
  const S = new Map();
  for (const it of a.items) if (it.kind === 's') (S.get(it.range) ?? S.set(it.range, []).get(it.range)).push(it);
  for (const [k, r] of Object.entries(cov.statementMap)) {
    const key = rkey(r), n = cov.s[k]; const l = S.get(key);
    const it = l && (l.find((q) => hits[q.id] === n) || l[0]);
    if (!it) { d('s', 's extra', { range: key, got: n }); continue; }
    l.splice(l.indexOf(it), 1); checked++; events += n;
    if (hits[it.id] !== n) d('s', 's count ' + it.type, { range: key, got: n, want: hits[it.id], src: src(it.node) });
  }
  for (const l of S.values()) for (const it of l) d('s', 's missing ' + it.type, { range: it.range, want: hits[it.id], src: src(it.node) });
  const F = new Map();
  for (const it of a.items) if (it.kind === 'f') F.set(it.range, it);
  for (const [k, f] of Object.entries(cov.fnMap)) {
    const key = rkey(f.loc), it = F.get(key);
    if (!it) { d('f', 'f extra', { range: key, got: cov.f[k] }); continue; }
    F.delete(key); checked++; events += cov.f[k];
    if (hits[it.id] !== cov.f[k]) d('f', 'f count ' + it.type, { range: key, got: cov.f[k], want: hits[it.id], src: src(it.node) });
    const nm = fnIdentity(it, k, a, code);
    if (nm.name !== undefined && nm.name !== f.name) d('loc', 'f name', { range: key, got: f.name, want: nm.name, src: src(it.node) });
    if (nm.decl && nm.decl !== rkey(f.decl)) d('loc', 'f decl', { range: key, got: rkey(f.decl), want: nm.decl, src: src(it.node) });
    if (f.line !== f.loc.start.line) d('loc', 'f line', { range: key, got: f.line });
  }
  for (const it of F.values()) d('f', 'f missing ' + it.type, { range: it.range, want: hits[it.id], src: src(it.node) });
  const B = new Map();
  for (const it of a.items) if (it.kind === 'b') B.set(it.type + it.range, it);
  for (const [k, b] of Object.entries(cov.branchMap)) {
    const key = b.type + rkey(b.loc), it = B.get(key);
    if (!it) { d('b', 'b extra ' + b.type, { range: rkey(b.loc), got: cov.b[k] }); continue; }
    B.delete(key);
    if (b.line !== b.loc.start.line) d('loc', 'b line', { range: rkey(b.loc), got: b.line });
    const rs = b.locations.map(rkey).join(' '), want = it.ids.map((i) => hits[i]);
    if (rs !== it.ranges.join(' ')) { d('b', 'b ranges ' + b.type, { got: rs, want: it.ranges.join(' '), src: src(it.node) }); continue; }
    checked += want.length; for (const n of cov.b[k] ?? []) events += n;
    if (String(cov.b[k]) !== String(want)) d('b', 'b count ' + b.type, { range: rkey(b.loc), got: cov.b[k], want, src: src(it.node) });
    if (it.tids) {
      const wt = it.tids.map((i) => hits[i]); checked += wt.length;
      if (String(cov.bT?.[k]) !== String(wt)) d('bT', 'bT count', { range: rkey(b.loc), got: cov.bT?.[k], want: wt, src: src(it.node) });
    } else if (cov.bT && k in cov.bT) d('bT', 'bT of ' + b.type, { range: rkey(b.loc), got: cov.bT[k] });
  }
  if (!reportLogic && cov.bT) d('bT', 'bT without reportLogic', { got: cov.bT });
  if (reportLogic && !cov.bT && a.items.some((x) => x.tids)) d('bT', 'no bT', {});
  for (const it of B.values()) if (it.ids.length) d('b', 'b missing ' + it.type, { range: it.range, want: it.ids.map((i) => hits[i]), src: src(it.node) });
  return { dev, events, checked };
}

/** Name and declaration range of a function entry. */
export function fnIdentity(it, k, a) {
  const R = (n) => rkey({ start: a.loc(n.start), end: a.loc(n.end) });
  const n = it.node, m = it.method;
  if (m) {
    if (m.kind === 'constructor') return { name: 'constructor', decl: R(m.key) };
    if (m.key.type === 'PrivateIdentifier') return { name: '#' + m.key.name, decl: R(m.key) };
    if (!m.computed && m.key.type === 'Identifier') return { name: m.key.name, decl: R(m.key) };
    return { name: 'anonymous' };
  }
  if (n.id) return { name: n.id.name, decl: R(n.id) };
  return { name: `(anonymous_${k})` };
}

/** Relations inside the coverage data, and between it and the code (category 'struct'). */
export function compareStructure(cov, outCode, initial) {
  const dev = []; const d = (sig, detail) => dev.push({ cat: 'struct', sig, detail });
  const same = (x, y) => String(Object.keys(x ?? {}).map(Number).sort((p, q) => p - q)) === String(Object.keys(y ?? {}).map(Number).sort((p, q) => p - q));
  if (!same(cov.statementMap, cov.s)) d('s ids', { map: Object.keys(cov.statementMap), hits: Object.keys(cov.s) });
  if (!same(cov.fnMap, cov.f)) d('f ids', { map: Object.keys(cov.fnMap), hits: Object.keys(cov.f) });
  if (!same(cov.branchMap, cov.b)) d('b ids', { map: Object.keys(cov.branchMap), hits: Object.keys(cov.b) });
  for (const [k, b] of Object.entries(cov.branchMap)) if (!cov.b[k] || b.locations.length !== cov.b[k].length) d('b paths', { id: k, locations: b.locations.length, counts: cov.b[k] });
  if (cov.bT) for (const [k, t] of Object.entries(cov.bT)) if (!cov.b[k] || t.length !== cov.b[k].length || cov.branchMap[k]?.type !== 'binary-expr') d('bT paths', { id: k, t, b: cov.b[k] });
  if (initial) {
    for (const v of [...Object.values(initial.s), ...Object.values(initial.f), ...Object.values(initial.b).flat(), ...Object.values(initial.bT ?? {}).flat()]) if (v !== 0) { d('initial hits', { v }); break; }
  }
  const dup = (name, keys) => { const seen = new Set(); for (const q of keys) { if (seen.has(q)) d('duplicate ' + name, { key: q }); seen.add(q); } };
  dup('statement', Object.values(cov.statementMap).map(rkey));
  dup('function', Object.values(cov.fnMap).map((f) => rkey(f.loc)));
  dup('branch', Object.values(cov.branchMap).map((b) => b.type + rkey(b.loc)));
  // increments in the code
  let sites = 0;
  const seen = { s: new Set(), f: new Set(), b: new Set(), bT: new Set() };
  let ast; try { ast = acorn.parse(outCode, { ecmaVersion: 'latest', sourceType: 'module', allowReturnOutsideFunction: true, allowAwaitOutsideFunction: true }); } catch { try { ast = acorn.parse(outCode, { ecmaVersion: 'latest', sourceType: 'script', allowReturnOutsideFunction: true, allowHashBang: true }); } catch (e) { return { dev, sites, unparsed: String(e.message) }; } }
  const isCov = (n) => n && n.type === 'CallExpression' && n.callee.type === 'Identifier' && /^cov_\d+$/.test(n.callee.name) && n.arguments.length === 0;
  (function walk(n) {
    if (n.type === 'UpdateExpression' && n.argument.type === 'MemberExpression') {
      const path = []; let m = n.argument;
      while (m && m.type === 'MemberExpression') { path.unshift(m.computed ? (m.property.type === 'Literal' ? m.property.value : '?') : m.property.name); m = m.object; }
      if (isCov(m)) {
        sites++; const [k, id, ix] = path;
        const ok = k === 's' ? path.length === 2 && id in cov.s : k === 'f' ? path.length === 2 && id in cov.f : k === 'b' ? path.length === 3 && cov.b[id] && ix < cov.b[id].length : k === 'bT' ? path.length === 3 && cov.bT?.[id] && ix < cov.bT[id].length : false;
        if (!ok) d('increment of unknown counter', { path }); else seen[k].add(path.slice(1).join('.'));
        if (n.operator !== '++') d('decrement', { path });
      }
    }
    for (const k in n) { if (k === 'type' || k === 'start' || k === 'end') continue; const v = n[k]; if (Array.isArray(v)) { for (const x of v) if (x && x.type) walk(x); } else if (v && v.type) walk(v); }
  })(ast);
  for (const id of Object.keys(cov.s)) if (!seen.s.has(id)) d('statement without increment', { id, range: cov.statementMap[id] && rkey(cov.statementMap[id]) });
  for (const id of Object.keys(cov.f)) if (!seen.f.has(id)) d('function without increment', { id, range: cov.fnMap[id] && rkey(cov.fnMap[id].loc) });
  for (const [id, l] of Object.entries(cov.b)) l.forEach((_, i) => { if (!seen.b.has(`${id}.${i}`)) d('branch path without increment', { id, i, type: cov.branchMap[id]?.type }); });
  if (cov.bT) for (const [id, l] of Object.entries(cov.bT)) l.forEach((_, i) => { if (!seen.bT.has(`${id}.${i}`)) d('truth path without increment', { id, i }); });
  return { dev, sites };
}

/**
 * Everything about one program. Returns {status:'ok'|'skip', why?, dev:[...], ...}
 */
export async function evalProgram(h, code, { sourceType = 'script', options = {}, refOpts = {}, filename = PATH, request = {}, structure = false } = {}) {
  let a; const jsx = refOpts.jsx === true;
  // JSX is compiled away by swc for execution, in the original as in the instrumented program
  const js = async (c) => { if (!jsx) return c; const q = await h.call({ op: 'plain', code: c, filename, source_type: sourceType, syntax: 'jsx', react: true }); return q.ok ? q.code : null; };
  try { a = analyze(code, sourceType, refOpts); } catch (e) { return { status: 'skip', why: 'not valid: ' + short(String(e.message), 60), dev: [] }; }
  const code0 = await js(code); if (code0 === null) return { status: 'skip', why: 'swc: jsx', dev: [] };
  const r0 = await run(code0, { sourceType });
  if (r0.syntax) return { status: 'skip', why: 'not valid (v8)', dev: [] };
  if (r0.timeout || r0.fuelOut) return { status: 'skip', why: 'does not terminate', dev: [] };
  const r1 = await run(await js(a.probed) ?? ')', { sourceType, nprobes: a.nprobes });
  if (r1.syntax || snapshot(r0) !== snapshot(r1)) return { status: 'skip', why: 'probes interfere', dev: [] };
  const x = await h.call({ op: 'instrument', code, filename, source_type: sourceType, ...(jsx ? { syntax: 'jsx', react: true } : {}), ...request, options: { ...options, debugInitialCoverageComment: options.debugInitialCoverageComment ?? true } });
  const dev = [];
  if (!x.ok) {
    if (x.panic || x.crash) { dev.push({ cat: 'panic', sig: 'panic ' + (x.panic ?? x.crash).replace(/\d+/g, 'N').slice(0, 120), detail: x }); return { status: 'ok', dev, a }; }
    return { status: 'skip', why: 'swc: ' + short(x.parse_error ?? JSON.stringify(x), 60), dev: [] };
  }
  const covVar = options.coverageVariable ?? '__coverage__';
  const r2 = await run(x.code, { sourceType, coverageVariable: covVar });
  const base = { status: 'ok', dev, a, x, r0, r1, r2, events: 0, checked: 0 };
  // swc's own printer is not under test: what it gets wrong without instrumentation gives no verdict
  const printer = async () => { const q = await h.call({ code, ...(jsx ? { syntax: 'jsx', react: true } : {}), ...request, op: 'plain', filename, source_type: sourceType }); if (!q.ok) return false; const r = await run(q.code, { sourceType }); return r.syntax || snapshot(r) !== snapshot(r0); };
  if ((r2.syntax || snapshot(r0) !== snapshot(r2)) && await printer()) return { status: 'skip', why: 'swc printer', dev: [] };
  if (r2.syntax) { dev.push({ cat: 'syntax', sig: 'output does not parse', detail: r2.syntax }); return base; }
  if (r2.timeout) return { status: 'skip', why: 'instrumented program slow', dev: [] };
  if (snapshot(r0) !== snapshot(r2)) {
    let j = 0; while (j < r0.trace.length && r0.trace[j] === r2.trace[j]) j++;
    dev.push({ cat: 'behaviour', sig: 'behaviour', detail: { at: j, before: r0.trace[j] ?? null, after: r2.trace[j] ?? null, completion: [short(r0.completion), short(r2.completion)], globals: JSON.stringify(r0.globals) === JSON.stringify(r2.globals) ? undefined : [r0.globals, r2.globals].map((g) => short(g.join(' '))) } });
  }
  const cov = covOf(r2, filename);
  if (cov === undefined) { base.unserialisable = true; return base; }
  if (!cov) { dev.push({ cat: 'nocov', sig: 'no coverage', detail: { keys: Object.keys(r2.coverage ?? {}) } }); return base; }
  base.cov = cov;
  const c = compareCounts(a, r1.hits, cov, code, refOpts);
  dev.push(...c.dev); base.events = c.events; base.checked = c.checked;
  let initial = null; if (x.cov_comments?.[0]) initial = JSON.parse(x.cov_comments[0]);
  base.initial = initial;
  if (structure) {
    // without swc's fixer, which drops operands of no effect and their counters with them
    const raw = await h.call({ op: 'instrument', code, filename, source_type: sourceType, ...(jsx ? { syntax: 'jsx', react: true } : {}), ...request, passes: false, options: { ...options, debugInitialCoverageComment: true } });
    const s = compareStructure(cov, raw.code ?? '', initial);
    dev.push(...s.dev); base.sites = s.sites; base.unparsed = s.unparsed;
  }
  return base;
}
