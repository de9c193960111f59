// Replays the repository's own fixture suite (spec/fixtures/*.yaml, normally driven by mocha through @swc/core)
// against the instrumenter built from the working tree.
import fs from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';
import { createRequire } from 'node:module';
const require = createRequire('/opt/veriftools/node/node_modules/x.js');
const yaml = require('js-yaml');
const { createFileCoverage } = require('istanbul-lib-coverage');
const esbuild = require('esbuild');

export function loadFixtures(dir = '/repo/spec/fixtures') {
  const docs = [];
  for (const f of fs.readdirSync(dir).filter((x) => x.endsWith('.yaml')).sort())
    yaml.loadAll(fs.readFileSync(path.join(dir, f), 'utf8'), (d) => { if (d) docs.push({ ...d, file: f }); });
  return docs;
}
const AsyncFunction = (async () => {}).constructor;
const same = (a, b) => { try { require('node:assert').deepStrictEqual(JSON.parse(JSON.stringify(a ?? null)), JSON.parse(JSON.stringify(b ?? null))); return true; } catch { return false; } };

export async function replay(h, doc) {
  const out = [];
  const opts = { coverageVariable: '__testing_coverage__', ...(doc.instrumentOpts ?? {}), debugInitialCoverageComment: true };
  if (doc.inputSourceMap) opts.inputSourceMap = doc.inputSourceMap;
  let r = null;
  for (const source_type of ['module', 'script']) {
    r = await h.call({ op: 'instrument', code: doc.code, filename: '/fx/' + doc.file, syntax: 'jsx', source_type, react: /jsx/.test(doc.file), options: opts });
    if (r.ok || r.panic) break;
  }
  if (!r.ok) { out.push({ what: 'instrument', detail: r }); return out; }
  if (doc.opts?.generateOnly) return out;
  let body = r.code;
  if (/^\s*(import|export)\s/m.test(body)) body = esbuild.transformSync(body, { format: 'cjs', target: 'esnext' }).code.replace(/^"use strict";/, '').replace('module.exports = ', '');
  const g = globalThis;
  for (const t of doc.tests ?? []) {
    delete g.__testing_coverage__;
    let fn;
    try { fn = new (doc.opts?.isAsync ? AsyncFunction : Function)('args', 'React', `{ var exports={};\n var output;\n${body}\nreturn output;\n}`); } catch (e) { out.push({ what: 'compile', detail: String(e), code: r.code }); break; }
    let got;
    try { got = await fn(t.args, { createElement: (...a) => a }); } catch (e) { out.push({ what: 'throw ' + t.name, detail: String(e), code: r.code }); continue; }
    const cov = g.__testing_coverage__ && Object.values(g.__testing_coverage__)[0];
    delete g.__testing_coverage__;
    if (!cov) { { if (!doc.opts?.noCoverage) out.push({ what: "nocov " + t.name }); } continue; }
    const c = createFileCoverage(JSON.parse(JSON.stringify(cov)));
    const exp = { out: t.out, lines: t.lines ?? {}, functions: t.functions ?? {}, branches: t.branches ?? {}, branchesTrue: t.branchesTrue ?? {}, statements: t.statements ?? {} , inputSourceMap: t.inputSourceMap};
    const act = { out: got, lines: c.getLineCoverage(), functions: c.data.f, branches: c.data.b, branchesTrue: c.data.bT ?? {}, statements: c.data.s, inputSourceMap: c.data.inputSourceMap };
    for (const k of Object.keys(exp)) if (!same(exp[k], act[k])) out.push({ what: `${k} (${t.name})`, detail: [exp[k], act[k]] });
  }
  return out;
}
