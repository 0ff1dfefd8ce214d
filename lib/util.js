'use strict';
// Seeded randomness, violations and small helpers shared by the monitors.
const crypto = require('crypto');
class Rng {
  constructor(seed) { const h = crypto.createHash('sha256').update(String(seed)).digest(); this.s = [h.readUInt32LE(0), h.readUInt32LE(4), h.readUInt32LE(8), h.readUInt32LE(12)]; }
  u32() { const s = this.s; let t = s[3]; let x = s[0]; s[3] = s[2]; s[2] = s[1]; s[1] = x; t ^= t << 11; t ^= t >>> 8; s[0] = t ^ x ^ (x >>> 19); return s[0] >>> 0; }
  int(n) { return n <= 1 ? 0 : this.u32() % n; }
  range(a, b) { return a + this.int(b - a + 1); }
  chance(p) { return this.u32() / 4294967296 < p; }
  pick(a) { return a[this.int(a.length)]; }
  weighted(o) { const e = Object.entries(o).filter(x => x[1] > 0); let t = 0; for (const [, w] of e) t += w; let r = this.u32() / 4294967296 * t; for (const [k, w] of e) { r -= w; if (r < 0) return k; } return e[e.length - 1][0]; }
  shuffle(a) { for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
  bytes(n) { const b = Buffer.alloc(n); for (let i = 0; i < n; i++) b[i] = this.u32() & 255; return b; }
}
// Thrown by a monitor. tags: the properties this observation refutes; sig: stable name of the kind of failure.
class Violation extends Error { constructor(tags, what, detail) { super(what); this.tags = [...new Set(tags)]; this.what = what; this.detail = detail; } }
const sha = s => crypto.createHash('sha256').update(s).digest('hex').slice(0, 16);
const js = v => JSON.stringify(v, (k, x) => typeof x === 'bigint' ? x.toString() + 'n' : x && x.type === 'Buffer' ? '0x' + Buffer.from(x.data).toString('hex') : x);
const ZERO32 = Buffer.alloc(32);
const akey = a => a.owner + '|' + Buffer.from(a.subaccount || ZERO32).toString('hex');
const isDefault = a => !a.subaccount || Buffer.compare(Buffer.from(a.subaccount), ZERO32) === 0;
const tag = v => (typeof v === 'string' ? v : Object.keys(v)[0]);
const min = (a, b) => (a < b ? a : b);
// Canonical text of an ICRC-3 value: maps sorted, the last value of a repeated key wins.
function canonV(v) {
  const k = tag(v), x = v[k];
  switch (k) {
    case 'Nat': return 'n' + BigInt(x); case 'Int': return 'i' + BigInt(x); case 'Text': return 't' + JSON.stringify(x);
    case 'Blob': return 'b' + Buffer.from(x).toString('hex'); case 'Array': return '[' + x.map(canonV).join(',') + ']';
    case 'Map': return canonM(x);
  }
  throw new Error('value ' + js(v));
}
function canonM(list) { const m = new Map(); for (const [k, v] of list) m.set(k, canonV(v)); return '{' + [...m.keys()].sort((a, b) => Buffer.compare(Buffer.from(a), Buffer.from(b))).map(k => JSON.stringify(k) + ':' + m.get(k)).join(',') + '}'; }
const mapGet = (list, k) => { for (const [a, v] of list) if (a === k) return v; return undefined; };
// ICRC-3 representation-independent hash
const H = b => crypto.createHash('sha256').update(b).digest();
function lebU(n) { n = BigInt(n); const o = []; do { let b = Number(n & 127n); n >>= 7n; if (n) b |= 128; o.push(b); } while (n); return Buffer.from(o); }
function lebS(n) { n = BigInt(n); const o = []; for (;;) { const b = Number(n & 127n); n >>= 7n; if ((n === 0n && !(b & 64)) || (n === -1n && (b & 64))) { o.push(b); break; } o.push(b | 128); } return Buffer.from(o); }
// u: non-negative integers are hashed as naturals (what icrc-ledger-types does)
function hashV(v, u) {
  const k = tag(v), x = v[k];
  switch (k) {
    case 'Nat': return H(lebU(x)); case 'Int': return H(u && BigInt(x) >= 0n ? lebU(x) : lebS(x)); case 'Text': return H(Buffer.from(x)); case 'Blob': return H(Buffer.from(x));
    case 'Array': return H(Buffer.concat(x.map(y => hashV(y, u))));
    case 'Map': return H(Buffer.concat(x.map(([a, b]) => [H(Buffer.from(a)), hashV(b, u)]).sort((p, q) => Buffer.compare(p[0], q[0]) || Buffer.compare(p[1], q[1])).flat()));
  }
}
module.exports = { Rng, Violation, sha, js, ZERO32, akey, isDefault, tag, min, canonV, canonM, mapGet, hashV, lebU };
