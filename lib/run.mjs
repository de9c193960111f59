// Runs a program in a fresh realm with a tracing host, and records everything it can be seen to do.
import vm from 'node:vm';

const FUEL = 6000;
export function makeHost(opts = {}) {
  const trace = []; let fuel = opts.fuel ?? FUEL;
  const hits = opts.nprobes ? new Float64Array(opts.nprobes) : null;
  return { trace, hits, vary: opts.vary ?? null, get fuel() { return fuel; }, burn() { return --fuel; } };
}

// Built inside the realm, so that objects of the realm are described by its own intrinsics.
const PRELUDE = `(function(trace, hits, burn, vary){
  const {getPrototypeOf, prototype: OP, getOwnPropertyNames, getOwnPropertyDescriptor, keys} = Object;
  const isArray = Array.isArray; const hop = OP.hasOwnProperty; const S = String; const J = JSON.stringify;
  const ts = OP.toString; const g = globalThis;
  function desc(v, d, seen) {
    switch (typeof v) {
      case 'undefined': return 'undefined';
      case 'string': return J(v);
      case 'number': return Object.is(v, -0) ? '-0' : S(v);
      case 'boolean': return S(v);
      case 'bigint': return S(v) + 'n';
      case 'symbol': return S(v);
      case 'function': {
        let out = 'fn/' + (getOwnPropertyDescriptor(v,'length')||{}).value;
        const own = []; 
        if (d > 0 && seen.indexOf(v) < 0) { seen.push(v);
          for (const k of getOwnPropertyNames(v)) { if (k==='length'||k==='name'||k==='arguments'||k==='caller'||k==='prototype') continue; own.push(k); }
          if (hop.call(v,'prototype') && v.prototype) { const pn = getOwnPropertyNames(v.prototype).filter(k=>k!=='constructor'); if (pn.length) out += '^' + pn.join(','); }
        }
        return out + (own.length ? '{' + own.map(k => { const q = getOwnPropertyDescriptor(v,k); return k + ':' + ('value' in q ? desc(q.value, d-1, seen) : 'acc'); }).join(',') + '}' : '');
      }
    }
    if (v === null) return 'null';
    if (v === g) return '<global>';
    if (seen.indexOf(v) >= 0) return '<seen>';
    if (d <= 0) return '<deep>';
    seen.push(v);
    if (isArray(v)) { let o = []; for (let i = 0; i < v.length && i < 20; i++) o.push(i in v ? desc(v[i], d-1, seen) : '<hole>'); return '[' + o.join(',') + ']' + (v.length > 20 ? v.length : ''); }
    const tag = ts.call(v);
    if (tag === '[object Error]') return 'Error/' + (v.constructor && v.constructor.name) + (v.$own ? ':' + v.message : '');
    if (tag !== '[object Object]') { let s = tag; for (const k of keys(v)) s += ',' + k; return s; }
    let o = [];
    for (const k of getOwnPropertyNames(v)) { const q = getOwnPropertyDescriptor(v,k); o.push(k + (q.enumerable?'':'!') + ':' + ('value' in q ? desc(q.value, d-1, seen) : 'acc')); }
    return '{' + o.join(',') + '}';
  }
  class Fuel extends Error {}
  Function.prototype.toString = function() { return 'function () { [code] }'; };
  g.g0 = 1; g.g1 = 'one'; g.g2 = 0; g.g3 = {p1: 3, zz: ''};
  function def(k, v) { Object.defineProperty(g, k, {value: v, writable: false, enumerable: false, configurable: false}); }
  def('$t', function(id, v) { if (burn() < 0) throw new Fuel('fuel'); trace.push(id + '=' + desc(v, 3, [])); if (vary) { const k = vary(id); if (k >= 0) return [0, 1, '', null, 'x', void 0, true][k]; } return v; });
  def('$G', g);
  def('React', {createElement: function() { const a = []; for (let i = 0; i < arguments.length; i++) a.push(arguments[i]); return {el: a}; }, Fragment: 'Fragment'});
  def('Comp', 'Comp'); def('$J', {X: 'X'});
  def('$e', function(m) { const e = new Error(m); e.$own = true; return e; });
  def('$d', function(v) { return desc(v, 3, []); });
  def('$n', function() { if (burn() < 0) throw new Fuel('fuel'); const mk = (k, o) => new Proxy(o, {set(o, q, v) { trace.push('$n ' + k + q + '=' + desc(v, 1, [])); o[q] = v; return true; }}); return {s: mk('s', [0, 5]), f: mk('f', [0, 0]), b: [mk('b', [0, 0])], bT: [mk('bT', [0, 0])]}; });
  def('$fin', function() { return burn() >= 0; });
  if (hits) { def('$p', function(id) { hits[id]++; return []; }); def('$q', function(id, v) {
     if (v && (!isArray(v) || v.length) && (getPrototypeOf(v) !== OP || keys(v).length)) hits[id]++; return v; }); }
  // values whose truthiness, emptiness or prototype is unusual, and reads which can be seen
  const odd = [() => ({}), () => [], () => [0], () => ({a: 0}), () => Object.create(null), () => Object.assign(Object.create(null), {n: 1}), () => new (class E {})(), () => new (class K { constructor() { this.f = 0; } })(),
    () => Object.create({constructor: Object}), () => ({constructor: 1}), () => ({length: 0}), () => ({length: 2}), () => new Map(), () => new String(''), () => function () {}, () => Object.freeze({}), () => ({[Symbol('s')]: 1}),
    () => Object.defineProperty({}, 'h', {value: 1}), () => [,], () => new Date(0), () => 0n, () => -0, () => Symbol.iterator, () => Object.create({}), () => Object.create(OP), () => Object.create(Array.prototype), () => new Proxy([], {}), () => new Proxy({}, {}), () => new Proxy([1], {}), () => new Uint8Array(0), () => (function () { return arguments; })(), () => Object.setPrototypeOf([1], null), () => Object.setPrototypeOf({v: 1}, Array.prototype), () => Object.assign([], {k: 1}), () => Object.create(null, {z: {value: 1}}), () => new Number(0), () => JSON, () => new Error(''),
    () => ({get v() { return read('v'); }}), () => ({set v(x) { read(x); }}), () => Object.defineProperty(new (class G {})(), 'v', {enumerable: true, get() { return read('v'); }})];
  def('$x', function(id, k) { if (burn() < 0) throw new Fuel('fuel'); trace.push(id + '!' + k); return odd[k % odd.length](); });
  const OC = class { get p1() { return read('p1'); } get m1() { return read('m1'); } get q() { return read('q'); } set p1(v) { trace.push('set p1=' + desc(v, 1, [])); } };
  let reads = 0; function read(k) { if (burn() < 0) throw new Fuel('fuel'); trace.push('get ' + k); const n = reads++ % 5; return n === 0 ? 0 : n === 1 ? 1 : n === 2 ? null : n === 3 ? [] : 'x'; }
  def('$o', new OC());
  Object.defineProperty(g, '$g', {get() { return read('$g'); }, set(v) { trace.push('set $g=' + desc(v, 1, [])); }, enumerable: false, configurable: false});
  g.t = function tag(s) { let r = s.raw.join('|'); for (let i = 1; i < arguments.length; i++) r += ';' + desc(arguments[i], 1, []); return r; };
  return desc;
})`;
const preludeScript = new vm.Script(PRELUDE, { filename: 'prelude' });

const IGNORE = new Set();
export function newRealm(host) {
  const context = vm.createContext({}, { name: 'r' });
  const mk = preludeScript.runInContext(context);
  const desc = mk(host.trace, host.hits, () => host.burn(), host.vary);
  return { context, desc };
}
export const settle = async () => { for (let i = 0; i < 6; i++) await new Promise((r) => setImmediate(r)); };

function describeErr(desc, e) {
  try { return desc(e, 3, []); } catch { return '<err?>'; }
}
export { describeErr };
/** One execution of `code`. Resolves to what was observed; `timeout` means no verdict. */
export async function run(code, { sourceType = 'script', nprobes = 0, coverageVariable = '__coverage__', host, realm, fuel, settleAll = true, filename = 'prog.js' } = {}) {
  host ??= makeHost({ nprobes, fuel });
  realm ??= newRealm(host);
  let completion = 'normal', timeout = false, syntax = null;
  const onUnhandled = () => {};
  process.on('unhandledRejection', onUnhandled);
  try {
    if (sourceType !== 'module') {
      let s;
      if (sourceType === 'commonjs') code = `(function (exports, require, module) {${code}\n})({}, void 0, {});`;
      try { s = new vm.Script(code, { filename }); } catch (e) { return { syntax: String(e.message), trace: [], completion: 'syntax' }; }
      try { s.runInContext(realm.context, { timeout: 4000 }); } catch (e) {
        if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') timeout = true; else completion = 'throw ' + describeErr(realm.desc, e);
      }
    } else {
      let m;
      try { m = new vm.SourceTextModule(code, { context: realm.context, identifier: filename }); } catch (e) { return { syntax: String(e.message), trace: [], completion: 'syntax' }; }
      try {
        await m.link((spec) => {
          const sm = new vm.SyntheticModule(['default', 'named', 'other'], function () {
            this.setExport('default', 'D:' + spec); this.setExport('named', 'N:' + spec); this.setExport('other', 7);
          }, { context: realm.context });
          return sm;
        });
        await m.evaluate({ timeout: 4000 });
        const ns = m.namespace; const names = Object.keys(ns).sort();
        host.trace.push('exports=' + names.map((k) => { try { return k + ':' + realm.desc(ns[k], 3, []); } catch (e) { return k + ':!'; } }).join(';'));
      } catch (e) {
        if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') timeout = true; else completion = 'throw ' + describeErr(realm.desc, e);
      }
    }
    if (settleAll) await settle();
  } finally { process.removeListener('unhandledRejection', onUnhandled); }
  const g = realm.context;
  let coverage = null;
  try { coverage = vm.runInContext(`globalThis[${JSON.stringify(coverageVariable)}]`, realm.context); } catch {}
  const globals = [];
  for (const k of Object.keys(g).sort()) {
    if (k === coverageVariable || k === 't' || /^cov_\d+$/.test(k)) continue;
    let v; try { v = g[k]; globals.push(k + '=' + realm.desc(v, 3, [])); } catch { globals.push(k + '!'); }
  }
  return { trace: host.trace, completion, globals, timeout, coverage, hits: host.hits, fuelOut: host.fuel < 0, realm, host };
}
export const snapshot = (r) => JSON.stringify([r.trace, r.completion, r.globals]);
