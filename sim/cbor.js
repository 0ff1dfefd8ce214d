'use strict';
// CBOR as the HTTPS interface of the Internet Computer uses it.
function head(mt, n) {
  n = BigInt(n); let b;
  if (n < 24n) b = Buffer.from([(mt << 5) | Number(n)]);
  else if (n < 256n) b = Buffer.from([(mt << 5) | 24, Number(n)]);
  else if (n < 65536n) { b = Buffer.alloc(3); b[0] = (mt << 5) | 25; b.writeUInt16BE(Number(n), 1); }
  else if (n < 4294967296n) { b = Buffer.alloc(5); b[0] = (mt << 5) | 26; b.writeUInt32BE(Number(n), 1); }
  else { b = Buffer.alloc(9); b[0] = (mt << 5) | 27; b.writeBigUInt64BE(n, 1); }
  return b;
}
function enc(v) {
  if (Buffer.isBuffer(v) || v instanceof Uint8Array) return Buffer.concat([head(2, v.length), v]);
  if (typeof v === 'number' || typeof v === 'bigint') return head(0, v);
  if (typeof v === 'string') { const b = Buffer.from(v); return Buffer.concat([head(3, b.length), b]); }
  if (typeof v === 'boolean') return Buffer.from([v ? 0xf5 : 0xf4]);
  if (v === null || v === undefined) return Buffer.from([0xf6]);
  if (Array.isArray(v)) return Buffer.concat([head(4, v.length), ...v.map(enc)]);
  const e = Object.entries(v).filter(x => x[1] !== undefined); return Buffer.concat([head(5, e.length), ...e.flatMap(([k, x]) => [enc(k), enc(x)])]);
}
const encode = v => Buffer.concat([Buffer.from([0xd9, 0xd9, 0xf7]), enc(v)]);
function decode(buf) {
  let i = 0;
  const num = n => { if (i + n > buf.length) throw new Error('cbor: short'); const v = n === 1 ? buf[i] : n === 2 ? buf.readUInt16BE(i) : n === 4 ? buf.readUInt32BE(i) : buf.readBigUInt64BE(i); i += n; return v; };
  const item = () => {
    const b = num(1), mt = b >> 5, a = b & 31;
    const n = a < 24 ? a : a === 24 ? num(1) : a === 25 ? num(2) : a === 26 ? num(4) : a === 27 ? num(8) : a === 31 ? -1 : NaN; if (Number.isNaN(n)) throw new Error('cbor: ' + b);
    const k = Number(n);
    switch (mt) {
      case 0: return n;
      case 2: case 3: { const v = buf.subarray(i, i + k); if (v.length !== k) throw new Error('cbor: short'); i += k; return mt === 2 ? v : v.toString(); }
      case 4: { const l = []; if (k < 0) { while (buf[i] !== 0xff) l.push(item()); i++; } else for (let j = 0; j < k; j++) l.push(item()); return l; }
      case 5: { const o = {}; if (k < 0) { while (buf[i] !== 0xff) { const x = item(); o[x] = item(); } i++; } else for (let j = 0; j < k; j++) { const x = item(); o[x] = item(); } return o; }
      case 6: return item();
      case 7: return a === 20 ? false : a === 21 ? true : null;
    }
    throw new Error('cbor: type ' + mt);
  };
  const v = item(); if (i !== buf.length) throw new Error('cbor: trailing bytes'); return v;
}
module.exports = { encode, decode, enc };
