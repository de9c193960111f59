import { execFileSync } from 'node:child_process';
/** what the plugin's entry point makes of each {code, filename, config} */
export function plugin(...reqs) {
  const out = execFileSync(process.env.DEMO, { input: JSON.stringify(reqs), maxBuffer: 1 << 28 });
  return JSON.parse(String(out).trimEnd().split('\n').pop()).map((r) => r.code);
}
export const instrumented = (code) => /__coverage__/.test(code);
let bad = 0;
export function expect(what, got, want) {
  const a = JSON.stringify(got), b = JSON.stringify(want);
  if (a !== b) { bad = 1; console.log(`FAIL ${what}: got ${a}, expected ${b}`); }
}
process.on('exit', (c) => { if (!c) process.exitCode = bad; });
