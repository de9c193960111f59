// Several files loaded into one realm, one after the other, calling each other: original, probed and instrumented.
import vm from 'node:vm';
import { generate } from './gen.mjs';
import { analyze } from './ref.mjs';
import { run, makeHost, newRealm, settle, describeErr } from './run.mjs';

/** n generated files; each announces a function through which the others and the driver call it. */
export function project(r, n, { size = 22, kinds = ['module', 'commonjs', 'script'], shadow = 0.4, seedText = 'p', avoid = [] } = {}) {
  const files = [];
  for (let k = 0; k < n; k++) {
    const kind = r.pick(kinds);
    let prefix = '';
    if (r.p(shadow)) {
      const names = r.shuffle(kind === 'script' ? ['path', 'hash', 'gcv', 'coverage', 'actualCoverage', 'coverageData', 'global', 'window', 'self'] : ['path', 'hash', 'gcv', 'coverage', 'actualCoverage', 'coverageData', 'global', 'globalThis', 'window', 'self', 'Function', 'Object', '__coverage__', 'exports_']).filter((x) => !avoid.includes(x)).slice(0, r.range(1, 5));
      prefix = names.map((x, i) => (kind === 'script' ? `var ${x} = ${i};` : r.pick([`var ${x} = "s${i}";`, `let ${x} = null;`, `const ${x} = {};`, `class ${x} {}`, `function ${x}() { return ${i}; }`]))).join('\n') + '\n';
      if (kind === 'module' && /^(class)/.test(prefix)) prefix = 'export {};\n' + prefix;
    }
    const g = generate(`${seedText}/${k}`, { sourceType: kind === 'module' ? 'module' : 'script', size, directives: !prefix && r.p(0.3), nameBase: 1000 * k, idBase: 10000 * k });
    const j = r.int(n);
    const tail = `\n$G.api${k} = function api${k}_(x) { if (x > 1) { $t(${9000 + k}, x); } return x > 0 && $G.api${j} ? $G.api${j}(x - 1) || x : 0; };\n`;
    files.push({ kind, code: prefix + g.code + tail, k, features: g.features });
  }
  return files;
}
export const driver = (r, n) => Array.from({ length: r.range(1, 4) }, (_, i) => `try { $t(${9500 + i}, $G.api${r.int(n)}(${r.range(1, 6)})); } catch (e) { $t(${9500 + i}, e); }`).join('\n');

/** loads texts[] in order with driver calls between; what was seen */
export async function runAll(files, texts, drive, { nprobes = 0, covVar, before = null, vary = null, settleAll = true } = {}) {
  const host = makeHost({ nprobes, vary }); const realm = newRealm(host);
  if (before) vm.runInContext(before, realm.context);
  let syntax = null, timeout = false; const done = []; let last = null;
  for (let i = 0; i < files.length; i++) {
    const q = await run(texts[i], { sourceType: files[i].kind, host, realm, settleAll, coverageVariable: covVar });
    if (q.syntax) { syntax = q.syntax; break; }
    timeout ||= q.timeout; host.trace.push('done ' + q.completion); done.push(q.completion);
    try { vm.runInContext(drive[i], realm.context, { timeout: 4000 }); } catch (e) { host.trace.push('driver ' + describeErr(realm.desc, e)); }
    last = q;
  }
  await settle();
  let globals = [];
  for (const k of Object.keys(realm.context).sort()) { if (k === covVar || k === 't' || /^cov_\d+$/.test(k)) continue; try { globals.push(k + '=' + realm.desc(realm.context[k], 3, [])); } catch { globals.push(k + '!'); } }
  return { host, realm, syntax, timeout, done, trace: host.trace, globals, fuelOut: host.fuel < 0, hits: host.hits, snapshot: JSON.stringify([host.trace, globals]) };
}
export const readCov = (realm, covVar) => {
  const s = vm.runInContext(`(function(k){ const o = globalThis[k]; if (!o) return null; const out = []; for (const p of Object.getOwnPropertyNames(o)) out.push([p, o[p]]); return JSON.stringify(out, (k, v) => /_temp$/.test(k) ? undefined : v); })(${JSON.stringify(covVar)})`, realm.context);
  return s === null ? null : JSON.parse(s);
};
/** analyses of all files with one numbering of the probes */
export function analyzeAll(files, refOpts = {}) {
  let base = 0; const out = [];
  for (const f of files) { const a = analyze(f.code, f.kind, { ...refOpts, hints: f.hints, probeBase: base }); base = a.nprobes; out.push(a); }
  return { list: out, nprobes: base };
}
