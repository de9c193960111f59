// Runs cases of one property; one answer per case.
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { loadProp } from './props/index.mjs';
import { Harness } from './harness.mjs';
const prop = await loadProp(process.env.VP_PROP);
let asan = false; // the harness of the case which runs
const ASAN = process.env.VP_ASAN; const LOG = ASAN && path.join(os.tmpdir(), `vp-asan-${process.pid}`);
const ctx = { tier: process.env.VP_TIER, seed: +process.env.VP_SEED,
  get h() { return asan ? (this._a ??= new Harness(ASAN, { ...process.env, ASAN_OPTIONS: `detect_leaks=0:log_path=${LOG}` })) : (this._h ??= new Harness()); } };
/** what AddressSanitizer reported, other than that the stack is full */
function reports() {
  const l = [];
  for (const f of fs.readdirSync(path.dirname(LOG))) if (f.startsWith(path.basename(LOG) + '.')) { const p = path.join(path.dirname(LOG), f); const t = fs.readFileSync(p, 'utf8'); fs.rmSync(p, { force: true }); const m = /ERROR: AddressSanitizer: (\S+)/.exec(t); if (m && m[1] !== 'stack-overflow') l.push({ sig: 'sanitizer: ' + m[1], detail: { report: t.slice(0, 3000) } }); }
  return l;
}
process.on('unhandledRejection', () => {});
process.on('message', async (m) => {
  if (m.quit) { try { ctx._h?.close(); ctx._a?.close(); } catch {} process.exit(0); }
  let r; asan = !!ASAN && m.case % 6 === 5;
  try { r = await prop.run(m.case, ctx); } catch (e) { r = { status: 'error', why: 'harness: ' + String(e && e.stack || e).slice(0, 600) }; }
  if (asan) {
    const l = reports(); r = { violations: [], ...r };
    if (l.length) r = { ...r, status: 'ok', violations: [...l, ...r.violations] };
    else if (r.violations.some((v) => /crash|signal/.test(JSON.stringify(v.detail ?? '')))) r = { status: 'inconclusive', why: 'stack of the sanitized build' };
    r.counters = { ...r.counters, cases_with_address_sanitizer: 1 };
  }
  process.send({ status: 'ok', violations: [], ...r, case: m.case });
});
process.send({ ready: true });
