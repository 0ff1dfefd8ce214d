'use strict';
// Adds exports for table 0 and every mutable global to a wasm module, so that the host can run
// callbacks by table index and roll a message's state changes back (as a replica does).
const zlib = require('zlib');
function gunzipMaybe(b) { return b[0] === 0x1f && b[1] === 0x8b ? zlib.gunzipSync(b) : b; }
function leb(n) { const o = []; do { let b = n & 0x7f; n >>>= 7; if (n) b |= 0x80; o.push(b); } while (n); return Buffer.from(o); }
function fix(bytes) {
  bytes = gunzipMaybe(Buffer.from(bytes));
  let p = 8; const secs = [];
  const rd = () => { let r = 0, s = 0, b; do { b = bytes[p++]; r |= (b & 0x7f) << s; s += 7; } while (b & 0x80); return r >>> 0; };
  while (p < bytes.length) { const id = bytes[p++]; const n = rd(); secs.push({ id, body: bytes.subarray(p, p + n), at: p }); p += n; }
  let impGlobals = 0, nMut = []; const metadata = {}; let ro = 0;
  for (const s of secs) {
    if (s.id === 2) { p = s.at; const n = rd(); for (let i = 0; i < n; i++) { let l = rd(); p += l; l = rd(); p += l; const k = bytes[p++]; if (k === 0) rd(); else if (k === 1) { p++; const f = bytes[p++]; rd(); if (f & 1) rd(); } else if (k === 2) { const f = bytes[p++]; rd(); if (f & 1) rd(); } else { p += 2; impGlobals++; } } }
    if (s.id === 6) { p = s.at; const n = rd(); for (let i = 0; i < n; i++) { p++; const m = bytes[p++]; if (m) nMut.push(impGlobals + i); for (;;) { const op = bytes[p++]; if (op === 0x0b) break; if (op === 0x41 || op === 0x42 || op === 0x23) { while (bytes[p] & 0x80) p++; p++; } else if (op === 0x43) p += 4; else if (op === 0x44) p += 8; else throw new Error('global init op ' + op); } } }
    if (s.id === 11) { // first of several segments: stack below it, read-only data in it
      p = s.at; const n = rd(), segs = []; let odd = false;
      for (let i = 0; i < n; i++) { const f = rd(); if (f !== 0 || bytes[p] !== 0x41) { odd = true; break; } p++; let r = 0, h = 0, b; do { b = bytes[p++]; r |= (b & 0x7f) << h; h += 7; } while (b & 0x80); p++; const m = rd(); segs.push([r >>> 0, m]); p += m; }
      if (!odd && segs.length === 2 && segs[0][0] + segs[0][1] <= segs[1][0]) ro = segs[0][0] + segs[0][1];
    }
    if (s.id === 0) { p = s.at; const l = rd(); metadata[bytes.toString('utf8', p, p + l)] = bytes.subarray(p + l, s.at + s.body.length); }
  }
  const out = [bytes.subarray(0, 8)];
  for (const s of secs) {
    if (s.id === 7) {
      p = s.at; const n = rd(); const rest = bytes.subarray(p, s.at + s.body.length);
      const extra = []; const add = (name, kind, i) => { const b = Buffer.from(name); extra.push(leb(b.length), b, Buffer.from([kind]), leb(i)); };
      add('__vf_table', 1, 0); nMut.forEach(g => add('__vf_g' + g, 3, g));
      const body = Buffer.concat([leb(n + 1 + nMut.length), rest, ...extra]);
      out.push(Buffer.from([7]), leb(body.length), body);
    } else if (s.id === 0) continue;
    else out.push(Buffer.from([s.id]), leb(s.body.length), s.body);
  }
  return { bytes: Buffer.concat(out), globals: nMut.map(g => '__vf_g' + g), metadata, ro };
}
module.exports = { fix, gunzipMaybe };
