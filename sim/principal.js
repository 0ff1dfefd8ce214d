'use strict';
const crypto = require('crypto');
const A = 'abcdefghijklmnopqrstuvwxyz234567';
let tbl = null;
function crc32(b) {
  if (!tbl) { tbl = new Int32Array(256); for (let i = 0; i < 256; i++) { let c = i; for (let k = 0; k < 8; k++) c = c & 1 ? (c >>> 1) ^ 0xedb88320 : c >>> 1; tbl[i] = c; } }
  let c = -1; for (const x of b) c = tbl[(c ^ x) & 255] ^ (c >>> 8); return (c ^ -1) >>> 0;
}
const cache = new Map(), rcache = new Map();
function fromBytes(bytes) {
  const hex = Buffer.from(bytes).toString('hex');
  let r = cache.get(hex); if (r) return r;
  const c = Buffer.alloc(4); c.writeUInt32BE(crc32(bytes));
  const all = Buffer.concat([c, Buffer.from(bytes)]);
  let s = '', acc = 0, n = 0;
  for (const x of all) { acc = (acc << 8) | x; n += 8; while (n >= 5) { s += A[(acc >>> (n - 5)) & 31]; n -= 5; } acc &= (1 << n) - 1; }
  if (n) s += A[(acc << (5 - n)) & 31];
  r = s.match(/.{1,5}/g).join('-');
  cache.set(hex, r); rcache.set(r, Buffer.from(bytes)); return r;
}
function toBytes(text) {
  if (Buffer.isBuffer(text)) return text;
  let r = rcache.get(text); if (r) return r;
  const s = text.replace(/-/g, ''); let acc = 0, n = 0; const out = [];
  for (const ch of s) { acc = (acc << 5) | A.indexOf(ch); n += 5; if (n >= 8) { out.push((acc >>> (n - 8)) & 255); n -= 8; acc &= (1 << n) - 1; } }
  r = Buffer.from(out.slice(4)); rcache.set(text, r); return r;
}
const ANON = fromBytes(Buffer.from([4]));
const MGMT = fromBytes(Buffer.alloc(0));
// a self-authenticating style principal derived from a label
function user(label) { return fromBytes(Buffer.concat([crypto.createHash('sha224').update('user:' + label).digest(), Buffer.from([2])])); }
function canister(n) { const b = Buffer.alloc(10); b.writeBigUInt64BE(BigInt(n), 0); b[8] = 1; b[9] = 1; return fromBytes(b); }
module.exports = { fromBytes, toBytes, ANON, MGMT, user, canister };
