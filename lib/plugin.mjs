// Hosts the plugin (wasm32-wasip1, built from /repo) the way swc's plugin runner does: one instance
// per file, program and comments and source map served by the harness over a synchronous channel.
import { spawn, spawnSync } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { BIN } from './harness.mjs';

/** The harness with a blocking call, as wasm imports cannot wait for promises. */
export class SyncHarness {
  constructor(bin = BIN) {
    const d = fs.mkdtempSync(path.join(os.tmpdir(), 'vp-plugin-')); const a = path.join(d, 'in'), b = path.join(d, 'out');
    if (spawnSync('mkfifo', [a, b]).status !== 0) throw new Error('mkfifo');
    this.p = spawn('/bin/sh', ['-c', 'exec "$0" < "$1" > "$2"', bin, a, b], { stdio: ['ignore', 'ignore', 'inherit'] });
    this.w = fs.openSync(a, 'w'); this.r = fs.openSync(b, 'r'); fs.rmSync(d, { recursive: true }); this.buf = Buffer.alloc(1 << 22);
  }
  call(req) {
    let b = Buffer.from(JSON.stringify(req) + '\n'); for (let o = 0; o < b.length;) o += fs.writeSync(this.w, b, o);
    const parts = [];
    for (;;) { const n = fs.readSync(this.r, this.buf, 0, this.buf.length, null); if (n === 0) throw new Error('harness ended'); const end = this.buf[n - 1] === 10; parts.push(Buffer.from(this.buf.subarray(0, n))); if (end) break; }
    return JSON.parse(Buffer.concat(parts).toString());
  }
  close() { try { fs.closeSync(this.w); fs.closeSync(this.r); } catch {} this.p.kill(); }
}
class Exit extends Error {}
export class Unsupported extends Error {}
export class PluginHost {
  constructor(wasmFile, h = new SyncHarness()) { this.h = h; this.module = new WebAssembly.Module(fs.readFileSync(wasmFile)); this.imports = WebAssembly.Module.imports(this.module); }
  close() { this.h.close(); }
  /** req: as for the harness, with context_filename, config (JSON text) and enable_comments */
  run(req) {
    const h = this.h; const begun = h.call({ ...req, op: 'plugin_begin' }); if (!begun.ok) return begun;
    const obs = { calls: {}, stdout: '' }; let ex, result = null;
    const mem = () => Buffer.from(ex.memory.buffer);
    const put = (bytes) => { const p = ex.__alloc(bytes.length) >>> 0; bytes.copy(mem(), p); return p; };
    const ret = (b64, at) => { if (b64 == null) return 0; const b = Buffer.from(b64, 'base64'); const p = put(b); const m = mem(); m.writeUInt32LE(p, at >>> 0); m.writeUInt32LE(b.length, (at >>> 0) + 4); return 1; };
    const slice = (p, n) => Buffer.from(mem().subarray(p >>> 0, (p >>> 0) + n));
    const own = {
      __set_transform_result: (p, n) => { result = slice(p, n); }, __set_transform_plugin_core_pkg_diagnostics: () => {}, __emit_diagnostics: (p, n) => { obs.diagnostics = (obs.diagnostics ?? 0) + 1; },
      __get_transform_plugin_config: (at) => ret(begun.config, at), __get_transform_context: (k, at) => ret(begun.context[k], at), __copy_context_key_to_host_env: () => {}, __get_experimental_transform_context: () => 0,
      __copy_comment_to_host_env: (p, n) => { h.call({ op: 'plugin_call', fn: '__copy_comment_to_host_env', data: slice(p, n).toString('base64') }); },
    };
    const wasi = {
      fd_write: (fd, iovs, n, out) => { const m = mem(); let t = 0; for (let i = 0; i < n; i++) { const p = m.readUInt32LE(iovs + 8 * i), l = m.readUInt32LE(iovs + 8 * i + 4); obs.stdout += m.toString('utf8', p, p + l); t += l; } m.writeUInt32LE(t, out); return 0; },
      random_get: (p, n) => { mem().fill(7, p, p + n); return 0; }, clock_time_get: (id, prec, out) => { mem().writeBigUInt64LE(process.hrtime.bigint(), out); return 0; }, sched_yield: () => 0,
      environ_sizes_get: (a, b) => { const m = mem(); m.writeUInt32LE(0, a); m.writeUInt32LE(0, b); return 0; }, environ_get: () => 0, proc_exit: (c) => { throw new Exit('exit ' + c); },
      args_sizes_get: (a, b) => { const m = mem(); m.writeUInt32LE(0, a); m.writeUInt32LE(0, b); return 0; }, args_get: () => 0, fd_close: () => 0, fd_seek: () => 8, fd_fdstat_get: () => 8, fd_read: () => 8, fd_prestat_get: () => 8, fd_prestat_dir_name: () => 8,
    };
    const env = {};
    for (const i of this.imports) {
      const ns = (i.module === 'env' ? env : (env.__w ??= {})); let f = i.module === 'env' ? own[i.name] : wasi[i.name];
      if (!f && i.module === 'env') f = (...args) => {
        const last = args[args.length - 1]; const r = h.call({ op: 'plugin_call', fn: i.name, args });
        if (r.unsupported) throw new Unsupported(i.name); if (!r.ok) throw new Error('host: ' + JSON.stringify(r).slice(0, 300));
        return 'ret' in r ? r.ret : ret(r.bytes, last);
      };
      if (!f) f = () => { throw new Unsupported(i.name); };
      ns[i.name] = (...a) => { obs.calls[i.name] = (obs.calls[i.name] ?? 0) + 1; return f(...a); };
    }
    const w = env.__w; delete env.__w;
    let code, trap = null;
    try {
      ex = new WebAssembly.Instance(this.module, { env, wasi_snapshot_preview1: w }).exports; if (ex._initialize) ex._initialize();
      const ast = Buffer.from(begun.ast, 'base64'); const p = put(ast);
      code = ex.__transform_plugin_process_impl(p, ast.length, 1, req.enable_comments === false ? 0 : 1);
    } catch (e) { if (e instanceof Unsupported) return { ok: false, unsupported: e.message, obs }; trap = String(e?.stack ?? e).slice(0, 800); }
    if (trap !== null || code !== 0 || !result) return { ok: false, trap: trap ?? `plugin returned ${code}`, stdout: obs.stdout.slice(-1500), obs };
    const r = h.call({ ...req, op: 'plugin_end', program: result.toString('base64') });
    return { ...r, obs };
  }
}
