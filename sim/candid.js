'use strict';
// Minimal Candid encoder / decoder (enough for every type used by the canisters under test).
// Values: nat/int/nat64/int64 -> BigInt, smaller ints and floats -> Number, opt -> null | value,
// vec nat8 -> Buffer, principal -> text, record -> object (array when a tuple), variant -> {Tag: value}.
const P = require('./principal');

const names = new Map();
function hashName(s) {
  if (/^_?\d+_?$/.test(s) && /^\d+$/.test(s)) return Number(s);
  let h = 0;
  for (const b of Buffer.from(s, 'utf8')) h = (Math.imul(h, 223) + b) >>> 0;
  return h;
}
function register(...ns) { for (const n of ns) { if (!/^\d+$/.test(n)) names.set(hashName(n), n); } }

class Type { constructor(k, a) { this.k = k; this.a = a; } }
const prim = (k, code) => { const t = new Type(k); t.code = code; return t; };
const T = {
  null: prim('null', -1), bool: prim('bool', -2), nat: prim('nat', -3), int: prim('int', -4),
  nat8: prim('nat8', -5), nat16: prim('nat16', -6), nat32: prim('nat32', -7), nat64: prim('nat64', -8),
  int8: prim('int8', -9), int16: prim('int16', -10), int32: prim('int32', -11), int64: prim('int64', -12),
  float32: prim('float32', -13), float64: prim('float64', -14), text: prim('text', -15),
  reserved: prim('reserved', -16), empty: prim('empty', -17), principal: prim('principal', -24),
  opt: t => new Type('opt', t),
  vec: t => new Type('vec', t),
  record: fs => { const e = Object.entries(fs); e.forEach(([n]) => register(n)); return new Type('record', e.map(([n, t]) => [hashName(n), n, t]).sort((x, y) => x[0] - y[0])); },
  tuple: (...ts) => new Type('record', ts.map((t, i) => [i, String(i), t])),
  variant: fs => { const e = Object.entries(fs); e.forEach(([n]) => register(n)); return new Type('variant', e.map(([n, t]) => [hashName(n), n, t]).sort((x, y) => x[0] - y[0])); },
  fix: f => { const t = new Type('rec'); t.get = () => t.c || (t.c = f()); return t; },
  func: new Type('func'),
};
T.blob = T.vec(T.nat8);
const deref = t => { while (t.k === 'rec') t = t.get(); return t; };

class W {
  constructor() { this.b = Buffer.alloc(256); this.n = 0; }
  need(k) { if (this.n + k > this.b.length) { const nb = Buffer.alloc(Math.max(this.b.length * 2, this.n + k)); this.b.copy(nb, 0, 0, this.n); this.b = nb; } }
  u8(x) { this.need(1); this.b[this.n++] = x; }
  bytes(x) { this.need(x.length); Buffer.from(x.buffer, x.byteOffset, x.length).copy(this.b, this.n); this.n += x.length; }
  leb(v) {
    if (typeof v === 'number' && v < 0x40000000) { do { let b = v & 0x7f; v >>>= 7; if (v) b |= 0x80; this.u8(b); } while (v); return; }
    v = BigInt(v); if (v < 0n) throw new Error('leb negative');
    do { let b = Number(v & 0x7fn); v >>= 7n; if (v) b |= 0x80; this.u8(b); } while (v);
  }
  sleb(v) {
    v = BigInt(v);
    for (;;) { const b = Number(v & 0x7fn); v >>= 7n; if ((v === 0n && !(b & 0x40)) || (v === -1n && (b & 0x40))) { this.u8(b); return; } this.u8(b | 0x80); }
  }
  fixed(v, n) { v = BigInt.asUintN(n * 8, BigInt(v)); this.need(n); for (let i = 0; i < n; i++) { this.b[this.n++] = Number(v & 255n); v >>= 8n; } }
  out() { return Buffer.from(this.b.subarray(0, this.n)); }
}

function encode(types, values) {
  const table = [], idx = new Map();
  function ref(t) {
    t = deref(t);
    if (t.code !== undefined) return t.code;
    if (idx.has(t)) return idx.get(t);
    const i = table.length; idx.set(t, i); table.push(null);
    const w = new W();
    if (t.k === 'opt') { w.sleb(-18); w.sleb(ref(t.a)); }
    else if (t.k === 'vec') { w.sleb(-19); w.sleb(ref(t.a)); }
    else if (t.k === 'record' || t.k === 'variant') { w.sleb(t.k === 'record' ? -20 : -21); w.leb(t.a.length); for (const [h, , ft] of t.a) { w.leb(h); w.sleb(ref(ft)); } }
    else throw new Error('encode type ' + t.k);
    table[i] = w.out();
    return i;
  }
  const refs = types.map(ref);
  const w = new W();
  w.bytes(Buffer.from('DIDL')); w.leb(table.length); table.forEach(b => w.bytes(b));
  w.leb(refs.length); refs.forEach(r => w.sleb(r));
  types.forEach((t, i) => val(w, t, values[i]));
  return w.out();
}
const FIX = { nat8: 1, nat16: 2, nat32: 4, nat64: 8, int8: 1, int16: 2, int32: 4, int64: 8 };
function val(w, t, v) {
  t = deref(t);
  switch (t.k) {
    case 'null': case 'reserved': return;
    case 'bool': return w.u8(v ? 1 : 0);
    case 'nat': return w.leb(v);
    case 'int': return w.sleb(v);
    case 'text': { const b = Buffer.from(v, 'utf8'); w.leb(b.length); return w.bytes(b); }
    case 'principal': { const b = P.toBytes(v); w.u8(1); w.leb(b.length); return w.bytes(b); }
    case 'float64': { const b = Buffer.alloc(8); b.writeDoubleLE(v); return w.bytes(b); }
    case 'float32': { const b = Buffer.alloc(4); b.writeFloatLE(v); return w.bytes(b); }
    case 'opt': if (v === null || v === undefined) return w.u8(0); w.u8(1); return val(w, t.a, v);
    case 'vec': {
      if (deref(t.a).k === 'nat8' && (Buffer.isBuffer(v) || v instanceof Uint8Array)) { w.leb(v.length); return w.bytes(v); }
      w.leb(v.length); for (const x of v) val(w, t.a, x); return;
    }
    case 'record': for (const [h, n, ft] of t.a) { const x = Array.isArray(v) ? v[h] : v[n]; if (x === undefined && deref(ft).k !== 'opt' && deref(ft).k !== 'null') throw new Error('missing field ' + n); val(w, ft, x); } return;
    case 'variant': {
      const tag = typeof v === 'string' ? v : Object.keys(v)[0];
      const i = t.a.findIndex(f => f[1] === tag); if (i < 0) throw new Error('no tag ' + tag);
      w.leb(i); return val(w, t.a[i][2], typeof v === 'string' ? null : v[tag]);
    }
    default: if (FIX[t.k]) return w.fixed(v, FIX[t.k]); throw new Error('encode ' + t.k);
  }
}

const PR = { '-1': 'null', '-2': 'bool', '-3': 'nat', '-4': 'int', '-5': 'nat8', '-6': 'nat16', '-7': 'nat32', '-8': 'nat64', '-9': 'int8', '-10': 'int16', '-11': 'int32', '-12': 'int64', '-13': 'float32', '-14': 'float64', '-15': 'text', '-16': 'reserved', '-17': 'empty', '-24': 'principal' };
function decode(buf) { try { return decode0(buf); } catch (e) { e.candid = true; throw e; } }
function decode0(buf) {
  let p = 0;
  const u8 = () => { if (p >= buf.length) throw new Error('candid: truncated'); return buf[p++]; };
  function leb() { let r = 0, m = 1, b; let i = 0; for (;;) { b = u8(); if (i < 4) { r += (b & 0x7f) * m; m *= 128; } else { return lebBig(r, i, b); } i++; if (!(b & 0x80)) return r; } }
  function lebBig(r, i, b) { let R = BigInt(r); let s = BigInt(7 * i); for (;;) { R |= BigInt(b & 0x7f) << s; s += 7n; if (!(b & 0x80)) return R <= 9007199254740991n ? Number(R) : R; b = u8(); } }
  function sleb() { let r = 0n, s = 0n, b; do { b = u8(); r |= BigInt(b & 0x7f) << s; s += 7n; } while (b & 0x80); if (b & 0x40) r -= 1n << s; return r; }
  function fixed(n, signed) { let r = 0n; for (let i = 0; i < n; i++) r |= BigInt(u8()) << BigInt(8 * i); if (signed) r = BigInt.asIntN(8 * n, r); return n === 8 ? r : Number(r); }
  if (buf.length < 4 || buf.toString('latin1', 0, 4) !== 'DIDL') throw new Error('candid: bad magic');
  p = 4;
  const nt = leb(), table = [];
  for (let i = 0; i < nt; i++) {
    const c = Number(sleb());
    if (c === -18 || c === -19) table.push({ k: c === -18 ? 'opt' : 'vec', a: Number(sleb()) });
    else if (c === -20 || c === -21) {
      const n = leb(), fs = []; for (let j = 0; j < n; j++) { const h = leb(); fs.push([h, names.get(h) || (h < 1000 ? String(h) : '_' + h + '_'), Number(sleb())]); }
      table.push({ k: c === -20 ? 'record' : 'variant', a: fs, tuple: c === -20 && fs.length > 0 && fs.every((f, j) => f[0] === j) });
    } else if (c === -22) { let n = leb(); while (n--) sleb(); n = leb(); while (n--) sleb(); n = leb(); p += n; table.push({ k: 'func' }); }
    else if (c === -23) { let n = leb(); while (n--) { const l = leb(); p += l; sleb(); } table.push({ k: 'service' }); }
    else throw new Error('candid: type ' + c);
  }
  const na = leb(), args = []; for (let i = 0; i < na; i++) args.push(Number(sleb()));
  function v(t) {
    if (t < 0) {
      const k = PR[t];
      switch (k) {
        case 'null': case 'reserved': return null;
        case 'bool': return u8() !== 0;
        case 'nat': return BigInt(leb());
        case 'int': return sleb();
        case 'text': { const n = leb(); const s = buf.toString('utf8', p, p + n); p += n; return s; }
        case 'principal': { u8(); const n = leb(); const s = P.fromBytes(buf.subarray(p, p + n)); p += n; return s; }
        case 'float64': { const x = buf.readDoubleLE(p); p += 8; return x; }
        case 'float32': { const x = buf.readFloatLE(p); p += 4; return x; }
        default: if (FIX[k]) return fixed(FIX[k], k[0] === 'i'); throw new Error('candid: prim ' + t);
      }
    }
    const ty = table[t];
    switch (ty.k) {
      case 'opt': return u8() ? v(ty.a) : null;
      case 'vec': {
        const n = leb();
        if (ty.a === -5) { const b = Buffer.from(buf.subarray(p, p + n)); p += n; return b; }
        const r = []; for (let i = 0; i < n; i++) r.push(v(ty.a)); return r;
      }
      case 'record': { if (ty.tuple) return ty.a.map(f => v(f[2])); const r = {}; for (const [, n, ft] of ty.a) r[n] = v(ft); return r; }
      case 'variant': { const i = leb(); const f = ty.a[i]; return { [f[1]]: v(f[2]) }; }
      case 'func': { u8(); u8(); let n = leb(); const s = P.fromBytes(buf.subarray(p, p + n)); p += n; n = leb(); const m = buf.toString('utf8', p, p + n); p += n; return { principal: s, method: m }; }
      case 'service': { u8(); const n = leb(); const s = P.fromBytes(buf.subarray(p, p + n)); p += n; return s; }
    }
    throw new Error('candid: ' + ty.k);
  }
  return args.map(v);
}
module.exports = { T, encode, decode, register, hashName };
