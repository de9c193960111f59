// Builds the harness from /repo's working tree. Content hashes, not time stamps, decide what is stale.
import { spawnSync } from 'node:child_process';
import crypto from 'node:crypto';
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
const here = path.dirname(fileURLToPath(import.meta.url));
export const ROOT = path.join(here, '..');
export const REPO = process.env.VP_REPO || '/repo';
export const ENV = { ...process.env, PATH: '/root/.cargo/bin:' + process.env.PATH, RUSTUP_TOOLCHAIN: 'nightly-2025-05-06', CARGO_NET_OFFLINE: 'true', RUSTC_WRAPPER: '', CARGO_TERM_COLOR: 'never' };
delete ENV.CARGO_TARGET_DIR;

function hashTree(h, dir, skip = /^(target|target-asan|node_modules|\.git|evidence)$/) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
    if (skip.test(e.name)) continue;
    const p = path.join(dir, e.name);
    if (e.isDirectory()) hashTree(h, p, skip);
    else if (e.isFile()) { h.update(p + '\0'); h.update(fs.readFileSync(p)); h.update('\0'); }
  }
}
export function sourceHash(extra = []) {
  const h = crypto.createHash('sha256');
  hashTree(h, path.join(REPO, 'packages'));
  for (const f of ['Cargo.toml', 'Cargo.lock']) h.update(fs.readFileSync(path.join(REPO, f)));
  for (const d of extra) hashTree(h, d);
  return h.digest('hex');
}
function lock(dir) {
  const p = path.join(dir, '.vp-lock'); fs.mkdirSync(dir, { recursive: true });
  for (let i = 0; i < 3000; i++) {
    try { fs.mkdirSync(p); fs.writeFileSync(path.join(p, 'pid'), String(process.pid)); return () => fs.rmSync(p, { recursive: true, force: true }); } catch {
      let pid = 0; try { pid = +fs.readFileSync(path.join(p, 'pid'), 'utf8'); } catch {}
      let alive = true; if (pid) { try { process.kill(pid, 0); } catch { alive = false; } }
      if (!alive || i > 2900) { fs.rmSync(p, { recursive: true, force: true }); continue; }
      Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 200);
    }
  }
  return () => {};
}
/** Builds a crate in /verif; its path dependencies are rebuilt if their content changed. */
export function buildCrate(name, { args = [], targetDir, packages = ['istanbul-oxide', 'swc-coverage-instrument'], env = {}, quiet = true } = {}) {
  const dir = path.join(ROOT, name), tdir = targetDir ?? path.join(dir, 'target');
  const unlock = lock(tdir);
  try {
    const hash = sourceHash([dir]) + JSON.stringify([args, env]); const stamp = path.join(tdir, '.vp-stamp');
    let old = ''; try { old = fs.readFileSync(stamp, 'utf8'); } catch {}
    const e = { ...ENV, CARGO_TARGET_DIR: tdir, ...env };
    if (old !== hash) {
      fs.rmSync(stamp, { force: true });
      if (fs.existsSync(path.join(tdir, 'debug')) || fs.readdirSync(tdir).some((x) => /wasm|linux/.test(x)))
        spawnSync('cargo', ['clean', '--offline', ...args.filter((x, i) => x.startsWith('--target') || args[i - 1] === '--target'), ...packages.flatMap((p) => ['-p', p])], { cwd: dir, env: e, stdio: 'ignore' });
    }
    const r = spawnSync('cargo', ['build', '--offline', ...args], { cwd: dir, env: e, encoding: 'utf8', maxBuffer: 1 << 28 });
    if (r.status !== 0) { process.stdout.write('BUILD FAILED\n' + (r.stderr || '').split('\n').filter((l) => /^(error|warning: unused)|-->/.test(l)).slice(0, 40).join('\n') + '\n' + (r.stderr || '').slice(-3000)); return null; }
    fs.writeFileSync(stamp, hash);
    return tdir;
  } finally { unlock(); }
}
export function buildHarness() {
  const t = buildCrate('harness', { packages: ['istanbul-oxide', 'swc-coverage-instrument', 'vharness'] });
  return t && path.join(t, 'debug', 'vharness');
}
/** The same harness with AddressSanitizer in the instrumenter, istanbul-oxide and all they depend on (not std). */
export function buildHarnessAsan() {
  const T = 'x86_64-unknown-linux-gnu';
  const t = buildCrate('harness', { args: ['--target', T], targetDir: path.join(ROOT, 'harness/target-asan'), packages: ['istanbul-oxide', 'swc-coverage-instrument', 'vharness'], env: { RUSTFLAGS: '--cfg vp_hooks -Zsanitizer=address' } });
  return t && path.join(t, T, 'debug', 'vharness');
}
export const PLUGIN = path.join(ROOT, 'wasm/target/wasm32-wasip1/debug/swc_plugin_coverage.wasm');
/** The plugin itself, from /repo's workspace and lock file, into a target directory of /verif. */
export function buildPlugin() {
  const tdir = path.join(ROOT, 'wasm/target'); fs.mkdirSync(tdir, { recursive: true });
  const unlock = lock(tdir);
  try {
    const hash = sourceHash(); const stamp = path.join(tdir, '.vp-stamp'); let old = ''; try { old = fs.readFileSync(stamp, 'utf8'); } catch {}
    const e = { ...ENV, CARGO_TARGET_DIR: tdir, CARGO_PROFILE_DEV_DEBUG: '0', CARGO_PROFILE_DEV_OPT_LEVEL: '1', CARGO_INCREMENTAL: '1' };
    const T = ['--target', 'wasm32-wasip1'];
    if (old !== hash) {
      fs.rmSync(stamp, { force: true });
      if (fs.existsSync(path.join(tdir, 'wasm32-wasip1'))) spawnSync('cargo', ['clean', '--offline', '--locked', ...T, '-p', 'istanbul-oxide', '-p', 'swc-coverage-instrument', '-p', 'swc-plugin-coverage'], { cwd: REPO, env: e, stdio: 'ignore' });
    }
    const r = spawnSync('cargo', ['build', '--offline', '--locked', '-p', 'swc-plugin-coverage', ...T], { cwd: REPO, env: e, encoding: 'utf8', maxBuffer: 1 << 28 });
    if (r.status !== 0) { process.stdout.write('BUILD FAILED\n' + (r.stderr || '').slice(-3000)); return null; }
    fs.writeFileSync(stamp, hash);
    return PLUGIN;
  } finally { unlock(); }
}
