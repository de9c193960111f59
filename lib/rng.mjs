// Deterministic generator of randomness (splitmix/sfc32).
export function hash32(s) { let h = 2166136261 >>> 0; for (const c of String(s)) { h ^= c.codePointAt(0); h = Math.imul(h, 16777619); } return h >>> 0; }
export class Rng {
  constructor(...seed) {
    let h = hash32(seed.join('/'));
    const next = () => { h = (h + 0x9e3779b9) | 0; let t = h ^ (h >>> 16); t = Math.imul(t, 0x21f0aaad); t ^= t >>> 15; t = Math.imul(t, 0x735a2d97); return (t ^ (t >>> 15)) >>> 0; };
    [this.a, this.b, this.c, this.d] = [next(), next(), next(), next()];
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() { const t = (((this.a + this.b) | 0) + this.d) | 0; this.d = (this.d + 1) | 0; this.a = this.b ^ (this.b >>> 9); this.b = (this.c + (this.c << 3)) | 0; this.c = (this.c << 21) | (this.c >>> 11); this.c = (this.c + t) | 0; return t >>> 0; }
  f() { return this.u32() / 4294967296; }
  int(n) { return Math.floor(this.f() * n); }
  range(a, b) { return a + this.int(b - a + 1); }
  p(x) { return this.f() < x; }
  pick(a) { return a[this.int(a.length)]; }
  weighted(pairs) { let s = 0; for (const [w] of pairs) s += w; let x = this.f() * s; for (const [w, v] of pairs) { if ((x -= w) < 0) return v; } return pairs[pairs.length - 1][1]; }
  shuffle(a) { a = [...a]; for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
}
