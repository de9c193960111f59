// A pool of vharness server processes (the real instrumenter and istanbul-oxide behind JSON lines).
import { spawn } from 'node:child_process';
import readline from 'node:readline';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
const here = path.dirname(fileURLToPath(import.meta.url));
export const BIN = process.env.VHARNESS_BIN || path.join(here, '../harness/target/debug/vharness');

export class Harness {
  constructor(bin = BIN, env = process.env) {
    this.bin = bin; this.env = env; this.pending = new Map(); this.seq = 0; this.start();
  }
  start() {
    this.p = spawn(this.bin, [], { stdio: ['pipe', 'pipe', 'inherit'], env: this.env });
    this.dead = false;
    const rl = readline.createInterface({ input: this.p.stdout, crlfDelay: Infinity });
    rl.on('line', (l) => {
      const r = JSON.parse(l); const cb = this.pending.get(r.id);
      this.pending.delete(r.id); if (cb) cb.res(r);
    });
    this.p.on('exit', (code, sig) => {
      this.dead = true;
      for (const [, cb] of this.pending) cb.res({ ok: false, crash: `exit ${code} signal ${sig}` });
      this.pending.clear();
    });
    this.p.stdin.on('error', () => {});
  }
  call(req) {
    if (this.dead) this.start();
    const id = ++this.seq;
    return new Promise((res) => {
      this.pending.set(id, { res });
      this.p.stdin.write(JSON.stringify({ ...req, id }) + '\n');
    });
  }
  close() { this.p.stdin.end(); this.p.kill(); }
}
