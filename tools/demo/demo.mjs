import { execFileSync } from 'node:child_process';
import vm from 'node:vm';
export function instrument(...reqs) {
  const out = execFileSync(process.env.DEMO, { input: JSON.stringify(reqs), maxBuffer: 1 << 28 });
  return JSON.parse(out).map((r) => r.code);
}
/** the comments of the output of one file */
export function commentsOf(req) {
  const out = execFileSync(process.env.DEMO, { input: JSON.stringify([req]), maxBuffer: 1 << 28 });
  return JSON.parse(out)[0].comments;
}
/** runs code in a fresh realm, gives what it returns and its coverage object */
export function run(code, globals = {}) {
  const ctx = vm.createContext({ ...globals });
  let value, error;
  try { value = vm.runInContext(code, ctx); } catch (e) { error = String(e); }
  const cov = vm.runInContext('typeof __coverage__ === "undefined" ? undefined : JSON.stringify(__coverage__)', ctx);
  return { value, error, all: cov && JSON.parse(cov), cov: cov && Object.values(JSON.parse(cov))[0] };
}
let bad = 0;
export function expect(what, got, want) {
  const a = JSON.stringify(got), b = JSON.stringify(want);
  if (a !== b) { bad = 1; console.log(`FAIL ${what}: got ${a}, expected ${b}`); }
}
process.on('exit', (c) => { if (!c) process.exitCode = bad; });
