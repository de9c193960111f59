// istanbul-oxide (the coverage data library) under random and hostile coverage data, against a model of its own.
import { Rng } from '../rng.mjs';
import { ilc } from '../istanbul.mjs';
import { near, pathish } from '../text.mjs';

// ---- generator -------------------------------------------------------------------------------------------
// Positions out of few digits: ranges which differ, but whose digits read the same one after the other, are common.
const NUM = [0, 1, 1, 2, 3, 11, 12, 21, 22, 111, 112, 121, 211];
const LINES = [1, 1, 2, 3, 11, 12, 21, 111, 112, 121];
function range(r) { const l = r.pick(LINES), c = r.pick(NUM); return { start: { line: l, column: c }, end: { line: r.p(0.6) ? l : r.pick(LINES), column: r.pick(NUM) } }; }
const K = (x) => `${x.start.line},${x.start.column}-${x.end.line},${x.end.column}`;
const BT = ['binary-expr', 'default-arg', 'if', 'switch', 'cond-expr'];
function distinct(r, n, make, key) { const out = [], seen = new Set(); for (let i = 0; i < n * 3 && out.length < n; i++) { const x = make(); const k = key(x); if (seen.has(k)) continue; seen.add(k); out.push(x); } return out; }
const bkey = (b) => (b.locations.length ? K(b.locations[0]) : 'none ' + K(b.loc)); // a branch without paths can be the first path of another

/** what a file of that name consists of */
export function universe(r, path, size = 8) {
  const firsts = [];
  return {
    path,
    s: distinct(r, r.int(size), () => range(r), K),
    f: distinct(r, r.int(size), () => { const loc = range(r); return { name: r.pick(['a', 'b', '(anonymous_0)', 'constructor', 'é', '__proto__', '"q"']), decl: range(r), loc, line: loc.start.line }; }, (f) => K(f.loc)),
    b: distinct(r, r.int(size), () => {
      const type = r.pick(BT); const none = type !== 'if' && r.p(0.1); let loc = range(r); const n = none ? 0 : type === 'switch' ? r.int(4) : type === 'default-arg' ? 1 : type === 'binary-expr' ? r.range(2, 4) : 2;
      if (none && firsts.length && r.p(0.5)) loc = r.pick(firsts); // all paths excluded by hints, the branch itself a path of another
      const first = range(r); firsts.push(first);
      const locations = Array.from({ length: n }, (_, i) => (i === 0 || type === 'if' ? first : range(r)));
      const b = { loc, type, locations, line: loc.start.line };
      if (r.p(0.1) && n) delete b.line; else if (r.p(0.05) && n) { b.line = r.pick(LINES); }
      return b;
    }, bkey),
  };
}
const HIT = (r, z) => r.weighted([[z, 0], [3, 1], [2, 2], [2, 7], [1, 100], [0.5, 123456], [0.2, 16777217]]);
/** a coverage of (a part of) the file: entries in any order, ids not always dense */
export function coverage(r, u, { logic = r.p(0.5), part = r.p(0.25), shuffle = r.p(0.4), gaps = r.p(0.25), zero = r.pick([1, 4, 20]), allHits = null, vary = false } = {}) {
  const pick = (l) => { let x = part ? l.filter(() => r.p(0.7)) : l; if (shuffle) x = r.shuffle(x); return x; };
  const ids = (n) => { const out = []; let i = 0; for (let k = 0; k < n; k++) { if (gaps && r.p(0.3)) i += r.range(1, 3); out.push(i++); } return out; };
  const H = () => allHits ?? HIT(r, zero);
  const c = { all: false, path: u.path, statementMap: {}, fnMap: {}, branchMap: {}, s: {}, f: {}, b: {} };
  const bT = {};
  const put = (l, f) => { const l2 = pick(l); const k = ids(l2.length); l2.forEach((x, i) => f(k[i], x)); };
  put(u.s, (k, x) => { c.statementMap[k] = x; c.s[k] = H(); });
  put(u.f, (k, x) => { c.fnMap[k] = x; c.f[k] = H(); });
  // another version of the file may have had fewer paths
  const shorten = (x) => (vary && /switch|binary/.test(x.type) && x.locations.length > 1 && r.p(0.5) ? { ...x, locations: x.locations.slice(0, r.range(1, x.locations.length - 1)) } : x);
  put(u.b, (k, y) => { const x = shorten(y); c.branchMap[k] = x; c.b[k] = x.locations.map(H); if (x.type === 'binary-expr') bT[k] = x.locations.map((_, i) => Math.min(H(), c.b[k][i])); });
  if (logic) c.bT = bT;
  return c;
}
export const sourceMap = (r) => ({ version: 3, ...(r.p(0.5) ? { file: r.pick(['a.js', '', 'é"\\']) } : {}), ...(r.p(0.5) ? { sourceRoot: r.pick(['', '/root', 'x\ny']) } : {}), sources: Array.from({ length: r.int(3) }, () => r.pick(['a.ts', '../b.ts', '日本.ts', 'w\\"x'])), ...(r.p(0.6) ? { sourcesContent: r.pick([[null], ['let a = "x";\n/* c */'], ['', null, '\u2028'], []]) } : {}), names: r.pick([[], ['a', 'b'], ['é', '__proto__']]), mappings: r.pick(['', 'AAAA', 'AAAA;AACA,QAAQ', ';;;']) });
export const PATHS = ['/a.js', '/b.js', '/a.js ', '/A.js', '', '__proto__', 'constructor', 'C:\\x\\y.js', '/日本/é.ts', '/😀', '/"q"\n', '/a/b/../c.js'];

// ---- model -----------------------------------------------------------------------------------------------
/** hits by location, without regard to ids */
export function canon(c, loose = false) { // loose: branches by first location; one may have more counts than locations
  const out = { s: {}, f: {}, b: {}, bT: null, problems: [] };
  const put = (o, k, v) => { if (k in o) out.problems.push('twice ' + k); Object.defineProperty(o, k, { value: v, enumerable: true, configurable: true, writable: true }); };
  const same = (m, h, n) => { const a = Object.keys(m).sort().join(), b = Object.keys(h).sort().join(); if (a !== b) out.problems.push(`ids of ${n}: ${a} / ${b}`); };
  same(c.statementMap, c.s, 's'); same(c.fnMap, c.f, 'f'); same(c.branchMap, c.b, 'b');
  for (const [k, v] of Object.entries(c.s)) if (c.statementMap[k]) put(out.s, K(c.statementMap[k]), v);
  for (const [k, v] of Object.entries(c.f)) if (c.fnMap[k]) put(out.f, JSON.stringify(normal(c.fnMap[k])), v);
  for (const [k, v] of Object.entries(c.b)) if (c.branchMap[k]) { put(out.b, loose ? bkey(c.branchMap[k]) : JSON.stringify(normal(c.branchMap[k])), v.join()); if (loose ? v.length < c.branchMap[k].locations.length : v.length !== c.branchMap[k].locations.length) out.problems.push('paths of ' + k); }
  if (c.bT) { out.bT = {}; for (const [k, v] of Object.entries(c.bT)) { if (!c.branchMap[k]) { out.problems.push('bT of no branch ' + k); continue; } if (!loose && v.length !== c.branchMap[k].locations.length) out.problems.push('bT paths of ' + k); put(out.bT, loose ? bkey(c.branchMap[k]) : JSON.stringify(normal(c.branchMap[k])), v.join()); } }
  return out;
}
const normal = (x) => (x && typeof x === 'object' ? (Array.isArray(x) ? x.map(normal) : Object.fromEntries(Object.keys(x).sort().filter((k) => x[k] !== undefined && x[k] !== null).map((k) => [k, normal(x[k])]))) : x);
export const str = (x) => JSON.stringify(normal(x));
const add = (a, b) => { const x = a.split(',').filter(Boolean).map(Number), y = b.split(',').filter(Boolean).map(Number); return Array.from({ length: Math.max(x.length, y.length) }, (_, i) => (x[i] ?? 0) + (y[i] ?? 0)).join(); };
export function mergeCanon(A, B) {
  const m = (a, b, f) => { const o = { ...a }; for (const [k, v] of Object.entries(b)) o[k] = k in o ? f(o[k], v) : v; return o; };
  return { s: m(A.s, B.s, (x, y) => x + y), f: m(A.f, B.f, (x, y) => x + y), b: m(A.b, B.b, add), bT: A.bT || B.bT ? m(A.bT ?? {}, B.bT ?? {}, add) : null, problems: [] };
}
/** merge of whole coverages in the model: respects `all` */
export function mergeModel(a, b) { // {all, canon}
  if (b.all) return a; if (a.all) return b; return { all: false, canon: mergeCanon(a.canon, b.canon) };
}
export const model = (c) => ({ all: !!c.all, canon: canon(c) });
const sum = (a) => a.reduce((x, y) => x + y, 0);
/** expected totals [total, covered] of lines, statements, functions, branches, branchesTrue */
export function totals(c) {
  const lines = new Map();
  for (const [k, v] of Object.entries(c.s)) { const l = c.statementMap[k].start.line; lines.set(l, Math.max(lines.get(l) ?? 0, v)); }
  const t = (l) => [l.length, l.filter((x) => x > 0).length];
  return [t([...lines.values()]), t(Object.values(c.s)), t(Object.values(c.f)), t(Object.values(c.b).flat()), c.bT ? t(Object.values(c.bT).flat()) : null];
}
export const pct = (covered, total) => (total ? Math.floor((covered * 10000) / total) / 100 : 100);
export function judgeTotals(got, want, what, bad) {
  const NAME = ['lines', 'statements', 'functions', 'branches', 'branchesTrue'];
  NAME.forEach((n, i) => {
    const g = got[i], w = want[i];
    if (!w) { if (g && (g[0] || g[1])) bad('summary ' + n, { what, got: g, want: null }); return; }
    if (!g) { bad('summary ' + n, { what, got: null, want: w }); return; }
    if (g[0] !== w[0] || g[1] !== w[1]) bad('summary ' + n, { what, got: g, want: w });
    else if (g[2] !== 0) bad('skipped ' + n, { what, got: g });
    else judgePct(g[3], w[1], w[0], what + ' ' + n, bad);
  });
}
export function judgePct(p, covered, total, what, bad) {
  const w = pct(covered, total);
  if (p === null || p === undefined || !(Math.abs(p - w) < 1e-4)) return bad('percentage', { what, covered, total, got: p, want: w });
  if (p < 0 || p > 100 || (p === 100 && covered < total)) bad('percentage range', { what, covered, total, got: p });
}
const diffCanon = (g, w) => { for (const k of ['s', 'f', 'b', 'bT']) if (str(g[k]) !== str(w[k])) { const ks = new Set([...Object.keys(g[k] ?? {}), ...Object.keys(w[k] ?? {})]); for (const q of ks) if (g[k]?.[q] !== w[k]?.[q]) return { map: k, entry: q, got: g[k]?.[q], want: w[k]?.[q] }; return { map: k, got: g[k] === null, want: w[k] === null }; } return null; };

// ---- running -----------------------------------------------------------------------------------------------
const PER = 12;
function makeProp(id, scenario, { rule, quick = 1500, thorough = 25000, technique, assumptions = [], fixed = 0, fixedRun } = {}) {
  return {
    technique: technique ?? 'sequences of operations on the real library, each result judged by a model of its own over hits by location', level: 'exploration', asan: true,
    note: 'Held for the operation sequences explored (numbers in the evidence file). Trusts the model in lib/props/oxide.mjs.',
    rule, assumptions: ['two entries of one coverage do not have the same location, as in all coverage produced by the instrumenter', 'hits stay below 2^32', ...assumptions],
    fixedCases: fixed, plan: { quick: { cases: quick, maxMs: 300000, min: 200 }, thorough: { cases: thorough, maxMs: 2400000, min: 200 } },
    async run(i, ctx) {
      const acc = { evals: 0, keys: [], counters: {}, features: [], violations: [], sample: null };
      const count = (k, n = 1) => { acc.counters[k] = (acc.counters[k] ?? 0) + n; };
      const one = async (f, r, tag) => {
        const vio = []; const bad = (sig, detail) => { if (vio.length < 3) vio.push({ sig, detail }); };
        const steps = []; const call = async (st) => { const q = await ctx.h.call({ op: 'oxide', steps: st }); steps.push(...st); if (!q.ok) { bad('panic', { panic: q.panic ?? q.crash ?? JSON.stringify(q), at: st[q.at] }); return null; } count('operations', st.length); for (let j = 0; j < st.length; j++) if (q.results[j]?.error) { bad('not accepted', { step: st[j], error: q.results[j].error }); return null; } return q.results; };
        const info = await f({ r, call, bad, count, feature: (x) => acc.features.push(x), ctx });
        acc.evals++; if (info?.key) acc.keys.push(info.key); if (!acc.sample && info?.sample) acc.sample = { case: i, ...info.sample };
        for (const v of vio) acc.violations.push({ ...v, input: { tag, steps: steps.slice(0, 60) } });
      };
      if (i < 0) await one(fixedRun[-1 - i], new Rng(ctx.seed, id, 'fixed', i), 'fixed');
      else for (let k = 0; k < PER; k++) await one(scenario, new Rng(ctx.seed, id, i, k), k);
      return acc;
    },
  };
}
const J = JSON.stringify; const P = (s) => JSON.parse(s);
/** as JSON; the maps sometimes ordered each in its own way (JavaScript itself would order the ids) */
function text(id, c) {
  const plain = J(c); const r = new Rng('order', id, plain); if (!r.p(0.3)) return plain;
  const entry = (k, v) => J(k) + ':' + v;
  return '{' + Object.keys(c).filter((k) => c[k] !== undefined).map((k) => entry(k, /^(statementMap|fnMap|branchMap|s|f|b|bT)$/.test(k) && c[k] ? '{' + r.shuffle(Object.keys(c[k])).map((q) => entry(q, J(c[k][q]))).join(',') + '}' : J(c[k]))).join(',') + '}';
}
const read = (id, c) => ({ do: 'read', id, json: text(id, c) });
const fileOf = (r, i = 0) => universe(r, r.p(0.15) ? pathish(r) + (i || '') : PATHS[i] ?? '/f' + i, r.pick([3, 6, 10, 20]));

async function c17({ r, call, bad, count, feature }) {
  const u = fileOf(r, r.int(3)); const n = r.range(2, 4); const vary = r.p(0.35); const cs = Array.from({ length: n }, () => coverage(r, u, { vary })); const cn = (c) => canon(c, vary); if (vary) feature('paths added or removed');
  const st = cs.map((c, i) => read('c' + i, c));
  for (let i = 1; i < n; i++) st.push({ do: 'merge', id: 'c0', from: 'c' + i }, { do: 'show', id: 'c' + i });
  const self = r.p(0.15); if (self) st.push({ do: 'merge', id: 'c0', from: 'c0' });
  const q = await call(st); if (!q) return;
  let want = cn(cs[0]);
  for (let i = 1; i < n; i++) {
    want = mergeCanon(want, cn(cs[i])); const g = P(q[n + 2 * (i - 1)]); const gc = cn(g);
    if (gc.problems.length) bad('inconsistent merge', { problems: gc.problems.slice(0, 4) });
    const d = diffCanon(gc, want); if (d) bad('merge ' + d.map, d);
    if (g.path !== u.path || g.all) bad('merge path', { path: g.path, all: g.all });
    if (q[n + 2 * (i - 1) + 1] !== q[i]) bad('second operand changed', { before: q[i].slice(0, 300), after: q[n + 2 * (i - 1) + 1].slice(0, 300) });
    count('merges'); count('entries_compared', Object.keys(want.s).length + Object.keys(want.f).length + Object.keys(want.b).length);
  }
  if (self) { const gc = cn(P(q.at(-1))); const d = diffCanon(gc, mergeCanon(want, want)); if (d) bad('merge with itself ' + d.map, d); }
  feature(`n${n} bT${cs.map((c) => +!!c.bT).join('')}`); if (u.b.some((b) => !b.locations.length)) feature('branch without paths');
  return { key: cs.length && u.s.length + u.f.length + u.b.length ? J(cs) : null, sample: { first: cs[0], second: cs[1] } };
}
const PERM = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
async function c18({ r, call, bad, count, feature }) {
  const u = fileOf(r); const vary = r.p(0.25); const cn = (c) => canon(c, vary); const cs = [0, 1, 2].map(() => coverage(r, u, { vary })); if (r.p(0.5)) for (const c of cs) if (r.p(0.5)) c.inputSourceMap = sourceMap(r);
  const zero = coverage(r, u, { allHits: 0, part: false });
  const kind = r.weighted([[5, 'none'], [3, 'one'], [2, 'two'], [1, 'three']]); const idx = r.shuffle([0, 1, 2]);
  if (kind !== 'none') for (let k = 0; k < { one: 1, two: 2, three: 3 }[kind]; k++) { cs[idx[k]].all = true; if (r.p(0.7)) for (const h of ['s', 'f']) for (const q of Object.keys(cs[idx[k]][h])) cs[idx[k]][h][q] = 0; }
  const st = []; const at = [];
  for (const p of PERM) { p.forEach((x, i) => st.push(read('p' + i, cs[x]))); st.push({ do: 'merge', id: 'p0', from: 'p1' }, { do: 'merge', id: 'p0', from: 'p2' }); at.push([st.length - 1, p, 'left']); }
  for (const p of PERM) { p.forEach((x, i) => st.push(read('p' + i, cs[x]))); st.push({ do: 'merge', id: 'p1', from: 'p2' }, { do: 'merge', id: 'p0', from: 'p1' }); at.push([st.length - 1, p, 'right']); }
  // a placeholder is replaced by real coverage as a whole, and leaves it as it is
  const ph = { ...coverage(r, u, { vary }), all: true, ...(r.p(0.5) ? { inputSourceMap: sourceMap(r) } : {}) }, real = { ...cs[0], all: false };
  st.push(read('h', ph), read('r', real), { do: 'merge', id: 'h', from: 'r' }, read('h2', ph), read('r2', real), { do: 'merge', id: 'r2', from: 'h2' }, { do: 'merge', id: 'h', from: 'r2' }); const hp = st.length - 5, rp = st.length - 2, hr = st.length - 1;
  st.push(read('z', zero), read('a', cs[0]), { do: 'merge', id: 'a', from: 'z' }, read('z2', zero), read('a2', cs[0]), { do: 'merge', id: 'z2', from: 'a2' });
  const q = await call(st); if (!q) return;
  if (str(P(q[hp])) !== str(real)) bad('placeholder not replaced', { got: q[hp].slice(0, 300), want: J(real).slice(0, 300) });
  if (str(P(q[rp])) !== str(real)) bad('placeholder contributes', { got: q[rp].slice(0, 300), want: J(real).slice(0, 300) });
  { const d = diffCanon(cn(P(q[hr])), mergeCanon(cn(real), cn(real))); if (d) bad('merge after replacing ' + d.map, d); count('placeholders'); }
  const live = cs.filter((c) => !c.all);
  if (live.length) {
    let want = null; for (const c of live) want = want ? mergeCanon(want, cn(c)) : cn(c);
    for (const [k, p, g] of at) { const c = P(q[k]); const gc = cn(c); const d = gc.problems.length ? { map: 'ids', problems: gc.problems.slice(0, 3) } : diffCanon(gc, want); if (d) bad(`order ${kind === 'none' ? '' : 'with placeholder '}${d.map}`, { order: p, grouping: g, ...d }); if (c.all) bad('placeholder survives', { order: p }); count('orders'); }
  } else for (const [k, p, g] of at) { if (!P(q[k]).all) bad('only placeholders, not marked all', { order: p, grouping: g }); count('orders'); }
  if (!cs[0].all) {
    const w = mergeCanon(cn(cs[0]), cn(zero));
    for (const k of [q.length - 4, q.length - 1]) { const d = diffCanon(cn(P(q[k])), w); if (d) bad('merge with zero ' + d.map, d); }
  }
  feature(kind);
  return { key: u.s.length + u.f.length + u.b.length ? J(cs) : null, sample: { coverages: cs.map((c) => ({ all: c.all, s: c.s, b: c.b })) } };
}
async function c19({ r, call, bad, count, feature }) {
  const nf = r.range(1, 5); const us = Array.from({ length: nf }, (_, i) => ({ ...fileOf(r, 0), path: r.p(0.3) ? pathish(r) : PATHS[r.int(PATHS.length)] }));
  for (let i = 1; i < us.length; i++) if (r.p(0.25)) us[i].path = near(r, us[r.int(i)].path);
  const us1 = us.filter((u, i) => us.findIndex((x) => x.path === u.path) === i);
  const st = []; const files = []; const newFile = () => { const u = r.pick(us1); const c = coverage(r, u); if (r.p(0.12)) { c.all = true; } const id = 'f' + files.length; files.push([id, c]); st.push(read(id, c)); return [id, c]; };
  const maps = new Map(); const checks = []; const probe = [...new Set([...PATHS, ...us.map((u) => u.path), pathish(r), ...us.map((u) => near(r, u.path))])];
  const clone = (m) => new Map([...m].map(([k, v]) => [k, v]));
  const addTo = (m, path, mod) => { m.set(path, m.has(path) ? mergeModel(m.get(path), mod) : mod); };
  const mk = () => {
    const id = 'm' + maps.size; const m = new Map();
    if (r.p(0.4)) { const fs = Array.from({ length: r.int(5) }, () => (files.length && r.p(0.3) ? r.pick(files) : newFile())); for (const [, c] of fs) addTo(m, c.path, model(c)); st.push({ do: 'map', id, from: fs.map((x) => x[0]), probe }); } else st.push({ do: 'map', id, default: r.p(0.5), probe });
    maps.set(id, m); checks.push([st.length - 1, clone(m), 'new']); return id;
  };
  mk(); mk(); const n = r.range(4, 16);
  for (let i = 0; i < n; i++) {
    const id = r.pick([...maps.keys()]); const m = maps.get(id);
    switch (r.weighted([[6, 'add'], [4, 'merge'], [2, 'filter'], [1, 'new']])) {
      case 'add': { const [f, c] = files.length && r.p(0.2) ? r.pick(files) : newFile(); st.push({ do: 'map_add', id, file: f, probe }); addTo(m, c.path, model(c)); checks.push([st.length - 1, clone(m), 'add']); feature('add'); break; }
      case 'merge': { const o = r.pick([...maps.keys()]); st.push({ do: 'map_merge', id, from: o, probe }); for (const [p, x] of clone(maps.get(o))) addTo(m, p, x); checks.push([st.length - 1, clone(m), o === id ? 'merge self' : 'merge']); st.push({ do: 'map_show', id: o, probe }); checks.push([st.length - 1, clone(maps.get(o)), 'other map']); feature(o === id ? 'self' : 'merge'); break; }
      case 'filter': { const keep = [...m.keys()].filter(() => r.p(0.6)); if (r.p(0.3)) keep.push('/nosuch'); st.push({ do: 'map_filter', id, keep, probe }); for (const k of [...m.keys()]) if (!keep.includes(k)) m.delete(k); checks.push([st.length - 1, clone(m), 'filter']); feature('filter'); break; }
      default: if (maps.size < 4) mk();
    }
  }
  const q = await call(st); if (!q) return;
  for (const [k, m, what] of checks) {
    const g = q[k].map ?? q[k]; count('map_states');
    if (q[k].same === false) bad('other operand changed', { what });
    if (J(g.files) !== J([...m.keys()])) { bad('files', { what, got: g.files, want: [...m.keys()] }); continue; }
    if (new Set(g.files).size !== g.files.length) bad('path twice', { what, files: g.files });
    const tot = [[0, 0], [0, 0], [0, 0], [0, 0], [0, 0]];
    [...m].forEach(([p, x], j) => {
      const c = g.entries[j] === null ? null : P(g.entries[j]);
      if (!c) return bad('lookup fails', { what, path: p });
      if (c.path !== p) bad('entry path', { what, path: p, got: c.path });
      const gc = canon(c); const d = gc.problems.length ? { map: 'ids', problems: gc.problems.slice(0, 3) } : c.all !== x.all ? { map: 'all', got: c.all } : diffCanon(gc, x.canon);
      if (d) bad('entry ' + d.map, { what, path: p, ...d });
      totals(c).forEach((t, i) => { if (t) { tot[i][0] += t[0]; tot[i][1] += t[1]; } }); count('entries_compared');
    });
    const hasT = [...m.values()].some((x) => x.canon.bT);
    if (m.size) judgeTotals(g.summary.totals, [...tot.slice(0, 4), hasT ? tot[4] : null], what, bad);
    else if (g.summary.totals.some((t) => t && (t[0] || t[1]))) bad('summary of empty map', { got: g.summary });
    for (const [p, e] of g.probes) if ((e !== null) !== m.has(p)) bad('lookup', { what, path: p, found: e !== null });
  }
  return { key: J(st.map((s) => [s.do, s.id, s.json?.length])) + J(files.slice(0, 2)), sample: { operations: st.filter((s) => s.do !== 'read').map((s) => [s.do, s.id, s.from ?? s.file ?? s.keep]) } };
}
const fromIlc = (c) => { const s = ilc.createFileCoverage(P(J(c))).toSummary().data; return ['lines', 'statements', 'functions', 'branches', 'branchesTrue'].map((k) => s[k] && [s[k].total, s[k].covered, s[k].skipped, s[k].pct]); };
async function c20({ r, call, bad, count, feature }) {
  if (r.p(0.35)) { // percentages over wide ranges
    const st = []; const w = [];
    for (let i = 0; i < 12; i++) { const total = r.weighted([[2, () => r.int(4)], [4, () => r.range(1, 300)], [3, () => r.range(1, 30000)], [0.35, () => r.range(40000, 150000)], [0.02, () => r.range(400000, 1200000)]])(); const covered = r.weighted([[2, () => total], [2, () => Math.max(0, total - 1)], [1, () => 0], [1, () => Math.min(1, total)], [4, () => r.int(total + 1)]])(); st.push({ do: 'percent', covered, total }); w.push([covered, total]); }
    const q = await call(st); if (!q) return;
    q.forEach((x, i) => { const m = /total: (\d+), covered: (\d+), skipped: (\d+), pct: Value\(([-\d.eNaninf]+)\)/.exec(x); const [c, t] = w[i]; count('percentages'); if (!m || +m[1] !== t || +m[2] !== c || +m[3] !== 0) return bad('totals', { got: x, covered: c, total: t }); judgePct(+m[4], c, t, 'percent', bad); });
    feature('percent'); return { key: J(w) };
  }
  if (r.p(0.2)) { // summaries given as numbers, also of skipped entries
    const t = () => { const total = r.pick([0, 1, r.int(20), r.int(5000)]); const covered = r.pick([0, total, r.int(total + 1)]); return [total, covered, r.pick([0, 0, r.int(9)]), r.p(0.8) ? pct(covered, total) : null]; };
    const vs = Array.from({ length: r.range(1, 5) }, () => (r.p(0.15) ? null : [t(), t(), t(), t(), r.p(0.6) ? t() : null])); const zero = [0, 0, 0, null]; const full = (v) => v ?? [zero, zero, zero, zero, zero];
    const q = await call([{ do: 'summary_values', values: vs }]); if (!q) return; const g = q[0];
    let acc = full(vs[0]).map((x) => x && [...x]);
    g.merged.forEach((m, i) => {
      if (i) full(vs[i]).forEach((x, j) => { if (!x) return; const y = acc[j] ?? zero; acc[j] = [y[0] + x[0], y[1] + x[1], y[2] + x[2], pct(y[1] + x[1], y[0] + x[0])]; if (j < 4 || x) acc[j][3] = pct(acc[j][1], acc[j][0]); });
      acc.forEach((w, j) => { const y = m.totals[j]; if (!w) { if (y && (y[0] || y[1])) bad('merged values', { i, j, got: y, want: w }); return; } if (!y || y[0] !== w[0] || y[1] !== w[1] || y[2] !== w[2]) return bad('merged values', { i, j, got: y, want: w }); if (w[3] === null ? y[3] !== null : y[3] === null || Math.abs(y[3] - w[3]) > 1e-4) bad('percentage of merged values', { i, j, got: y, want: w }); });
      if (m.empty !== (acc[0][0] === 0)) bad('isEmpty', { got: m.empty, lines: acc[0] }); count('merged_values');
    });
    g.after.forEach((m, i) => full(vs[i]).forEach((w, j) => { const y = m.totals[j]; if ((y === null) !== (w === null) || (w && (y[0] !== w[0] || y[1] !== w[1] || y[2] !== w[2]))) bad('merging changes the other summary', { i, j, got: y, want: w }); }));
    feature('values'); return { key: J(vs) };
  }
  const cs = Array.from({ length: r.range(1, 5) }, (_, i) => { const c = coverage(r, fileOf(r, i)); if (r.p(0.1)) c.all = true; return c; });
  const ids = cs.map((_, i) => 'c' + i);
  const q = await call([...cs.map((c, i) => read(ids[i], c)), { do: 'summary', ids }, { do: 'summary_from_empty', ids }]); if (!q) return;
  const a = q[cs.length], b = q[cs.length + 1]; let acc = null;
  cs.forEach((c, i) => {
    const t = totals(c); acc = acc ? acc.map((x, j) => (t[j] ? (x ? [x[0] + t[j][0], x[1] + t[j][1]] : t[j]) : x)) : t;
    judgeTotals(a[i].totals, acc, 'merged ' + i, bad); judgeTotals(b[i + 1].totals, acc, 'merged from empty ' + i, bad);
    if (a[i].empty !== (acc[0][0] === 0)) bad('isEmpty', { got: a[i].empty, lines: acc[0] });
    count('summaries', 2);
  });
  if (r.p(0.3)) { const c = cs[0]; if (Object.values(c.branchMap).every((x) => x.line !== undefined)) { const g = a[0].totals, w = fromIlc(c); w.forEach((x, i) => { if (x && (!g[i] || g[i][0] !== x[0] || g[i][1] !== x[1] || Math.abs(g[i][3] - x[3]) > 1e-4)) bad('not as istanbul', { i, got: g[i], istanbul: x }); }); count('istanbul_compared'); } }
  feature('n' + cs.length);
  return { key: J(cs), sample: { totals: a.at(-1).totals } };
}
async function c21({ r, call, bad, count, feature }) {
  const c = coverage(r, fileOf(r)); const merged = r.p(0.3) ? coverage(r, universe(r, c.path, 6)) : null;
  const st = [read('a', c)]; if (merged) st.push(read('b', merged), { do: 'merge', id: 'a', from: 'b' }); st.push({ do: 'show', id: 'a' }, { do: 'lines', id: 'a' }, { do: 'show', id: 'a' });
  const q = await call(st); if (!q) return;
  const g = P(q.at(-3)), v = q.at(-2); if (q.at(-1) !== q.at(-3)) bad('view changes coverage', {});
  const lines = new Map(); for (const [k, h] of Object.entries(g.s)) { const l = g.statementMap[k].start.line; lines.set(l, Math.max(lines.get(l) ?? 0, h)); }
  const sorted = (m) => J([...m].sort((x, y) => x[0] - y[0]));
  if (sorted(lines) !== sorted(v.lines)) bad('line coverage', { got: v.lines, want: [...lines] });
  const un = [...lines].filter((x) => x[1] === 0).map((x) => x[0]).sort((x, y) => x - y);
  if (J(un) !== J([...v.uncovered].sort((x, y) => x - y))) bad('uncovered lines', { got: v.uncovered, want: un });
  const br = new Map(); for (const [k, b] of Object.entries(g.branchMap)) { const l = b.line ?? b.loc.start.line; br.set(l, [...(br.get(l) ?? []), ...g.b[k]]); }
  const seen = new Set();
  for (const [l, d] of v.branches) {
    const m = /covered: (\d+), total: (\d+), coverage: ([-\d.einfNa]+)/.exec(d); const w = br.get(l); seen.add(l); count('branch_lines');
    if (!w || !m) { bad('branch line', { line: l, got: d, want: w ?? null }); continue; }
    const cov = w.filter((x) => x > 0).length;
    if (+m[1] !== cov || +m[2] !== w.length) bad('branch line counts', { line: l, got: d, want: [cov, w.length] });
    else if (w.length && Math.abs(+m[3] - (cov / w.length) * 100) > 1e-3) bad('branch line ratio', { line: l, got: d, want: (cov / w.length) * 100 });
  }
  if (seen.size !== br.size || v.branches.length !== br.size) bad('branch lines', { got: [...seen], want: [...br.keys()] });
  count('lines', lines.size); feature(merged ? 'merged' : 'single');
  return { key: lines.size + br.size ? J(g) : null, sample: { lines: v.lines, branches: v.branches } };
}
async function c22({ r, call, bad, count, feature }) {
  const c = coverage(r, fileOf(r, r.int(12))); if (r.p(0.4)) c.inputSourceMap = sourceMap(r); if (r.p(0.2)) c.all = true;
  if (r.p(0.1)) for (const k of Object.keys(c.s)) c.s[k] = 4294967295;
  const raw = { ...c }; if (r.p(0.3)) { raw.hash = '123'; raw._coverageSchema = 'abc'; raw['cov_1_temp'] = { x: [1] }; } if (!c.all && r.p(0.3)) delete raw.all;
  const q = await call([read('a', raw), { do: 'show', id: 'a' }, { do: 'read_value', id: 'v', value: raw }, { do: 'equal', id: 'a', to: 'v' }, { do: 'copy', id: 'd', from: 'a' }, { do: 'equal', id: 'a', to: 'd' }, { do: 'reset', id: 'd' }, { do: 'reset', id: 'd' }, { do: 'show', id: 'a' }]); if (!q) return;
  const g = P(q[1]);
  if (str(g) !== str(c)) bad('content after reading', { got: q[1].slice(0, 400), want: J(c).slice(0, 400) });
  if ('bT' in g !== 'bT' in c || 'inputSourceMap' in g !== 'inputSourceMap' in c) bad('optional parts', { got: Object.keys(g), want: Object.keys(c) });
  if (!q[3]) bad('reading from text and from value differ', {}); if (!q[5]) bad('copy differs', {});
  if (r.p(0.35)) { // what merging leaves may have more counts than locations
    const u = fileOf(r); const a = coverage(r, u, { vary: true, part: false }), b = coverage(r, u, { vary: true, part: false });
    const m = await call([read('ma', a), read('mb', b), { do: 'merge', id: 'ma', from: 'mb' }, { do: 'show', id: 'ma' }, { do: 'reset', id: 'ma' }, { do: 'show', id: 'ma' }]); if (!m) return;
    const x = P(m[3]); for (const h of ['s', 'f', 'b', 'bT']) if (x[h]) x[h] = Object.fromEntries(Object.entries(x[h]).map(([k, v]) => [k, Array.isArray(v) ? v.map(() => 0) : 0]));
    if (str(P(m[5])) !== str(x)) bad('reset of merged', { got: m[5].slice(0, 400), want: J(x).slice(0, 400) }); count('merged_resets');
  }
  const q2 = await call([read('x', P(q[1])), { do: 'show', id: 'x' }, read('y', c), { do: 'equal', id: 'x', to: 'y' }]); if (!q2) return;
  if (q2[1] !== q[1] && str(P(q2[1])) !== str(g)) bad('second round trip', {}); if (!q2[3]) bad('not equal after a round trip', {});
  if (c.path !== '') try { const f = ilc.createFileCoverage(P(q[1])); if (str(f.toJSON()) !== str(g)) bad('istanbul reads something else', {}); ilc.createCoverageMap({ [c.path]: P(q[1]) }); count('accepted_by_istanbul'); } catch (e) { bad('istanbul rejects', { error: String(e) }); }
  const z = (o) => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, Array.isArray(v) ? v.map(() => 0) : 0]));
  const w = { ...c, s: z(c.s), f: z(c.f), b: z(c.b), ...(c.bT ? { bT: z(c.bT) } : {}) };
  if (str(P(q[6])) !== str(w)) bad('reset', { got: q[6].slice(0, 400), want: J(w).slice(0, 400) }); if (q[7] !== q[6]) bad('second reset', {});
  if (q[8] !== q[1]) bad('operation on a copy changes the original', {});
  count('round_trips'); feature((c.bT ? 'bT ' : '') + (c.inputSourceMap ? 'map ' : '') + (c.all ? 'all' : ''));
  return { key: J(c), sample: { json: q[1].slice(0, 300) } };
}
const SEQ = 'Random operation sequences on random coverage data whose positions collide when written without separators, entries in any order, ids with gaps, with and without truthiness counts; ';
export const oxide = {
  C17: makeProp('C17', c17, { rule: SEQ + 'non-trivial: the file has at least one entry; distinct by the coverages merged.' }),
  C18: makeProp('C18', c18, { quick: 700, rule: SEQ + 'all six orders and both groupings of three coverages; non-trivial: the file has at least one entry; distinct by the coverages.' }),
  C19: makeProp('C19', c19, { quick: 600, thorough: 12000, rule: SEQ + 'maps of several files, add, merge, filter; distinct by operations and files.' }),
  C20: makeProp('C20', c20, { rule: SEQ + 'summaries merged one by one, and percentages of many totals; distinct by data.' }),
  C21: makeProp('C21', c21, { quick: 2500, rule: SEQ + 'line views of plain and merged coverage; non-trivial: it has a line; distinct by coverage.' }),
  C22: makeProp('C22', c22, { rule: SEQ + 'read, written, read again, copied, reset; distinct by coverage.' }),
};
