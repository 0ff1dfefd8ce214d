'use strict';
// HTTP gateway side: fetching through redirects and checking v2 response certificates.
const crypto = require('crypto');
const { hashV, lebU } = require('./util');
const { decode } = require('../sim/candid');
const H = b => crypto.createHash('sha256').update(b).digest();
function cbor(buf) { // the subset hash trees use
  let i = 0; const u = n => { const v = n === 1 ? buf[i] : n === 2 ? buf.readUInt16BE(i) : n === 4 ? buf.readUInt32BE(i) : Number(buf.readBigUInt64BE(i)); i += n; return v; };
  const item = () => {
    const b = u(1), mt = b >> 5, a = b & 31; const n = a < 24 ? a : a === 24 ? u(1) : a === 25 ? u(2) : a === 26 ? u(4) : a === 27 ? u(8) : a === 31 ? -1 : NaN;
    if (Number.isNaN(n)) throw new Error('cbor');
    switch (mt) {
      case 0: return n; case 2: { const v = buf.subarray(i, i + n); if (v.length !== n) throw new Error('cbor: short'); i += n; return v; } case 3: { const v = buf.subarray(i, i + n).toString(); i += n; return v; }
      case 4: { const l = []; if (n < 0) { while (buf[i] !== 0xff) l.push(item()); i++; } else for (let k = 0; k < n; k++) l.push(item()); return l; }
      case 6: return item(); default: throw new Error('cbor type ' + mt);
    }
  };
  const v = item(); if (i !== buf.length) throw new Error('cbor: trailing bytes'); return v;
}
const dom = s => Buffer.concat([Buffer.from([s.length]), Buffer.from(s)]);
function root(t) {
  switch (t[0]) {
    case 0: return H(dom('ic-hashtree-empty')); case 1: return H(Buffer.concat([dom('ic-hashtree-fork'), root(t[1]), root(t[2])]));
    case 2: return H(Buffer.concat([dom('ic-hashtree-labeled'), Buffer.from(t[1]), root(t[2])])); case 3: return H(Buffer.concat([dom('ic-hashtree-leaf'), Buffer.from(t[1])])); case 4: return Buffer.from(t[1]);
  }
  throw new Error('tree node');
}
function find(t, path) {
  if (!path.length) return t;
  if (t[0] === 1) return find(t[1], path) || find(t[2], path);
  if (t[0] === 2 && Buffer.compare(Buffer.from(t[1]), Buffer.from(path[0])) === 0) return find(t[2], path.slice(1));
  return null;
}
const head = (r, n) => { const h = r.headers.filter(x => x[0].toLowerCase() === n); return h.length ? h[0][1] : undefined; };
// Returns null or what is wrong with the certificate of the answer to a GET of path.
function verify(r, path, canister) {
  const c = head(r, 'ic-certificate'), expr = head(r, 'ic-certificateexpression');
  if (!c) return 'no certificate'; if (!expr) return 'no certificate expression';
  const part = k => { const m = new RegExp('(?:^|[, ])' + k + '=:([^:]*):').exec(c); return m ? Buffer.from(m[1], 'base64') : null; };
  const cert = part('certificate'), tr = part('tree'), ep = part('expr_path'); if (!cert || !tr || !ep) return 'incomplete certificate header'; if (!/version=2/.test(c)) return 'certificate version';
  let tree, xp; try { tree = cbor(tr); xp = cbor(ep); } catch (e) { return 'undecodable tree: ' + e.message; }
  const pre = Buffer.from('SIMCERT:' + canister.id + ':'); if (Buffer.compare(cert, Buffer.concat([pre, canister.certified])) !== 0) return 'the certificate is not the one of the canister';
  if (Buffer.compare(root(tree), canister.certified) !== 0) return 'the tree does not hash to the certified data';
  const segs = path.split('/').slice(1); const want = ['http_expr', ...segs, '<$>'].join('\0'), alt = ['http_expr', ...segs.filter((s, i) => s !== '' || i < segs.length - 1), '<$>'].join('\0');
  const got = xp.map(String).join('\0'); if (got !== want && got !== alt) return 'the certificate covers another path: ' + JSON.stringify(xp.map(String));
  const sub = find(tree, [...xp.map(s => Buffer.from(s)), H(Buffer.from(expr))]); if (!sub) return 'the tree does not contain the expression of the path';
  if (/no_certification/.test(expr)) return find(sub, [Buffer.alloc(0)]) ? null : sub[0] === 0 || sub[0] === 3 || sub[0] === 2 ? null : 'the tree does not contain the skipped certification';
  const list = /(response_header_exclusions|certified_response_headers):ResponseHeaderList\{headers:\[([^\]]*)\]\}/.exec(expr.replace(/\s/g, '')); if (!list) return 'unknown certificate expression ' + expr;
  const names = list[2].split(',').map(s => s.replace(/"/g, '').toLowerCase()).filter(Boolean);
  const hs = r.headers.map(([k, v]) => [k.toLowerCase(), v]).filter(([k]) => k !== 'ic-certificate' && (k === 'ic-certificateexpression' || (list[1] === 'certified_response_headers' ? names.includes(k) : !names.includes(k))));
  const rih = hashV({ Map: [...hs.map(([k, v]) => [k, { Text: v }]), [':ic-cert-status', { Nat: BigInt(r.status_code) }]] });
  const respHash = H(Buffer.concat([rih, H(Buffer.from(r.body))]));
  const reqHash = /no_request_certification/.test(expr) ? Buffer.alloc(0) : H(Buffer.concat([hashV({ Map: [[':ic-cert-method', { Text: 'GET' }]] }), H(Buffer.alloc(0))]));
  if (!find(sub, [reqHash, respHash])) return 'the tree does not cover this answer';
  return null;
}
const req = (url, headers = []) => ({ method: 'GET', url, headers, body: Buffer.alloc(0), certificate_version: 2 });
// Follows a redirect to a storage canister like a browser behind a gateway; returns {body} or {err}.
function fetchStorage(core, location, caller) {
  let loc = location, parts = [], total = null, pos = 0;
  for (let k = 0; k < 24; k++) {
    const m = /^https:\/\/([a-z0-9-]+)\.raw\.icp0\.io(\/.*)$/s.exec(loc); if (!m) return { err: 'bad location ' + loc };
    const [, id, path] = m; if (!core.w.canisters.has(id)) return { err: 'the location names no canister: ' + loc };
    const rq = req(path, pos ? [['range', 'bytes=' + pos + '-']] : []);
    const raw = core.w.query(id, 'http_request', core.enc('http_request', [rq]), caller); if (!raw.reply) return { err: 'the storage canister rejects: ' + JSON.stringify(raw.reject || null).slice(0, 200) };
    let a = decode(raw.reply)[0];
    if (a.upgrade === true) { const ru = core.w.update(id, 'http_request_update', core.enc('http_request', [rq]), caller); if (!ru.reply) return { err: 'the storage canister rejects the update: ' + JSON.stringify(ru.reject || null).slice(0, 200) }; a = decode(ru.reply)[0]; }
    const sc = Number(a.status_code);
    if (sc === 200) return { body: Buffer.from(a.body), hops: k };
    if (sc === 206) { const cr = /bytes (\d+)-(\d+)\/(\d+)/.exec(head(a, 'content-range') || ''); if (!cr || Number(cr[1]) !== pos) return { err: 'bad range answer ' + head(a, 'content-range') }; parts.push(Buffer.from(a.body)); pos += a.body.length; total = Number(cr[3]); if (pos >= total) return { body: Buffer.concat(parts), hops: k }; continue; }
    if (sc === 307) { loc = head(a, 'location'); continue; }
    return { err: 'status ' + sc };
  }
  return { err: 'redirected without end' };
}
module.exports = { verify, fetchStorage, head, req, cbor, root };
