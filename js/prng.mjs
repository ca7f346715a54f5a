// The only source of randomness in the page simulations: derived from one seed by hashing.
import { createHash } from "node:crypto";
export class Rng {
  constructor(...parts) {
    const h = createHash("sha256").update(parts.join("/")).digest();
    this.a = h.readUInt32LE(0); this.b = h.readUInt32LE(4); this.c = h.readUInt32LE(8); this.d = h.readUInt32LE(12);
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() { // sfc32
    const t = (((this.a + this.b) | 0) + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  random() { return this.u32() / 4294967296; }
  int(lo, hi) { return lo + Math.floor(this.random() * (hi - lo + 1)); }
  chance(p) { return this.random() < p; }
  pick(a) { return a[Math.floor(this.random() * a.length)]; }
  weighted(pairs) { let t = 0; for (const [, w] of pairs) t += w; let x = this.random() * t; for (const [v, w] of pairs) { if ((x -= w) < 0) return v; } return pairs[pairs.length - 1][0]; }
}
