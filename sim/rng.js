"use strict";
// Keyed, splittable PRNG: every choice is a pure function of (seed, key path),
// so dropping one operation while minimising does not disturb the others.
function hash32(str, h = 0x811c9dc5) {
  for (let i = 0; i < str.length; i++) { h ^= str.charCodeAt(i); h = Math.imul(h, 0x01000193); }
  h ^= h >>> 16; h = Math.imul(h, 0x85ebca6b); h ^= h >>> 13; h = Math.imul(h, 0xc2b2ae35); h ^= h >>> 16;
  return h >>> 0;
}
class Rng {
  constructor(seed) { this.seed = String(seed); this.s = hash32(this.seed) || 1; this.t = hash32("b" + this.seed) || 2; }
  fork(...key) { return new Rng(this.seed + "/" + key.join("/")); }
  u32() { // xorshift-ish (sfc-like mix over two words)
    let a = this.s, b = this.t;
    a ^= a << 13; a ^= a >>> 17; a ^= a << 5;
    b = (Math.imul(b, 1664525) + 1013904223) | 0;
    this.s = a; this.t = b;
    let x = (a ^ (b >>> 3) ^ Math.imul(b, 0x9e3779b1)) | 0;
    x ^= x >>> 15; x = Math.imul(x, 0x2c1b3c6d); x ^= x >>> 12;
    return x >>> 0;
  }
  float() { return this.u32() / 4294967296; }
  int(n) { return Math.floor(this.float() * n); }            // [0,n)
  range(a, b) { return a + this.int(b - a + 1); }            // [a,b]
  bool(p = 0.5) { return this.float() < p; }
  pick(arr) { return arr[this.int(arr.length)]; }
  weighted(pairs) { // [[weight, value], ...]
    let t = 0; for (const [w] of pairs) t += w;
    let x = this.float() * t;
    for (const [w, v] of pairs) { x -= w; if (x < 0) return v; }
    return pairs[pairs.length - 1][1];
  }
  shuffle(arr) { const a = arr.slice(); for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
  sample(arr, n) { return this.shuffle(arr).slice(0, n); }
}
module.exports = { Rng, hash32 };
