'use strict';
// Uploads, storage canisters, the management lock and HTTP: reference model, monitors and workloads.
const crypto = require('crypto');
const { World } = require('../sim/replica');
const { Core, PERMS, initArgs } = require('../sim/core');
const { decode, encode, T } = require('../sim/candid');
const P = require('../sim/principal');
const { Violation, js, tag, sha } = require('./util');
const HTTP = require('./http');
const SEC = 1_000_000_000n, DAY = 86_400n * SEC;
const HOUR = 3600n * SEC;
const hex = b => crypto.createHash('sha256').update(b).digest('hex');
const rp = p => (p.startsWith('/') ? p : '/' + p);
const MB = 1024 * 1024;
const PATHS = ['/a.txt', 'b.txt', '/dir/c.png', 'd.png', '/ü.json', '/index.html', '/x/y/z', '/A.TXT', '/404', '/a.b.c', '/0.png', 'img/1.svg', '/img/2.svg', '/logs2', '/metrics/x', '/-', '/very/' + 'long/'.repeat(20) + 'p'];
const UNSERVABLE = ['/logs', 'metrics', '/traces', '/a?b=1', '/a#frag', '/a/../b', './c', '//d', 'e\\f', '..'];
const err = r => (r && r.ok && r.ok.Err !== undefined ? tag(r.ok.Err) : null);
const isOk = r => !!(r && r.ok && r.ok.Ok !== undefined);
const CONC = r => err(r) === 'ConcurrentManagementCall';
const F = { reject: { reject: [2, 'injected: unavailable'] }, rejectSys: { reject: [1, 'injected: system fatal'] }, lose: { lose: [5, 'injected: answer lost'] }, unknown: { lose: [6, 'injected: outcome unknown'] }, garbage: { garble: true } };

class Uploads {
  constructor(env, o = {}) {
    this.env = env; this.rng = env.rng; this.n = env.counters; this.log = env.log = []; this.o = o;
    this.w = o.world || new World(); this.ctl = P.user('controller');
    this.wasm = env.wasm('core_nft', o.build || 'prod');
    this.users = { uploader: P.user('uploader'), reader: P.user('reader'), other: P.user('other'), nobody: P.user('nobody'), anon: P.ANON };
    const perms = [...(o.perms ? o.perms(this) : []), [this.ctl, PERMS], [this.users.uploader, ['UpdateUploads']], [this.users.reader, ['ReadUploads']], [this.users.other, PERMS.filter(p => p !== 'UpdateUploads' && p !== 'ReadUploads')]];
    this.c = Core.deploy(this.w, this.wasm, this.ctl, { test_mode: false, permissions: { user_permissions: perms } });
    if (this.c.trap) throw new Violation(['X02'], 'the canister cannot be started', { trap: this.c.trap });
    this.up = new Map(); this.started = this.w.time; this.faulted = false; this.upgrades = 0; this.plan = null; this.lost = 0;
    this.w.fault = m => this.inject(m);
    this.w.refuseCall = (self, pnd) => this.refuse(self, pnd);
  }
  cnt(k, d = 1) { this.n[k] = (this.n[k] || 0) + d; }
  bad(tags, what, detail = {}) { throw new Violation(tags, what, { ...detail, recent: this.log.slice(-14) }); }
  tags(...t) { return this.faulted ? [...t, 'U03'] : t; }
  note(s) { this.log.push(s); this.cnt('ops'); }
  // ---- faults: this.plan = {match(call name), skip, times, mode}
  inject(m) {
    const pl = this.plan; if (!pl || pl.mode === 'refuse' || m.from !== this.c.id) return null;
    if (pl.skip > 0) { pl.skip--; return null; } if (pl.times <= 0) return null;
    pl.times--; pl.hits++; this.cnt('faults: ' + pl.mode + ' of ' + m.method);
    const f = F[pl.mode]; if (f.lose || f.garble) this.lost++;
    if (f.garble) return { garble: true };
    return f;
  }
  refuse(self, pnd) { const pl = this.plan; if (!pl || pl.mode !== 'refuse' || self.id !== this.c.id) return false; if (pl.skip > 0) { pl.skip--; return false; } if (pl.times <= 0) return false; pl.times--; pl.hits++; this.cnt('faults: refuse of ' + pnd.method); return true; }
  // runs one call under a fault plan; returns {r, hit, lost}
  call(caller, m, arg, plan) {
    const l0 = this.lost; this.plan = plan ? { hits: 0, ...plan } : null;
    const r = this.c.u(caller, m, arg); const hit = this.plan ? this.plan.hits : 0; this.plan = null; if (hit) this.faulted = true;
    return { r, hit, lost: this.lost - l0 };
  }
  // ---- model
  rec(p) { return this.up.get(p); }
  used(p) { for (const k of this.up.keys()) if (rp(k) === rp(p)) return k; return null; }
  newFile(path, o = {}) { // a file to upload
    const r = this.rng, size = o.size !== undefined ? o.size : Number(r.weighted({ 1: 1, 10: 3, 33: 3, 100: 3, 1000: 1 })); const cs = o.cs !== undefined ? o.cs : r.chance(0.3) ? null : Math.max(1, r.pick([size, size + 5, Math.ceil(size / 2), Math.ceil(size / 3), Math.ceil(size / 7), 10]));
    const data = size > 5000 ? crypto.createHash('sha512').update(path + size).digest().toString('hex').repeat(Math.ceil(size / 128)).slice(0, size) : null;
    const body = data ? Buffer.from(data) : r.bytes(size); const n = Math.max(1, Math.ceil(size / (cs === null ? MB : cs)));
    return { path, body, size, cs, n, hash: o.badHash ? hex(Buffer.from('other')) : hex(body) };
  }
  chunk(f, i) { const c = f.cs === null ? MB : f.cs; return f.body.subarray(i * c, i * c + c); }
  init(f, caller = this.ctl, plan, prep) {
    const arg = { file_path: f.path, file_hash: f.hash, file_size: BigInt(f.size), chunk_size: f.cs === null ? null : BigInt(f.cs) };
    if (prep) return arg;
    const before = this.used(f.path), x = this.call(caller, 'init_upload', arg, plan); this.judgeInit(f, x, before); return x.r;
  }
  judgeInit(f, x, before) {
    const { r, hit } = x; this.note('init ' + f.path + ' ' + f.size + '/' + f.cs + (hit ? ' fault' : '') + ' -> ' + js(r).slice(0, 120));
    if (r.reject) this.bad(['X02', 'U01', ...(hit ? ['U03'] : [])], 'init_upload failed: ' + r.reject[1]);
    if (CONC(r)) this.bad(['G01', 'U03'], 'an upload is refused as concurrent while no management call is pending');
    if (before !== null) { if (err(r) !== 'FileAlreadyExists') this.bad(this.tags('U01'), 'a path already in use was initialised again', { r: js(r) }); this.cnt('init of used path refused'); return; }
    if (f.unservable) { if (isOk(r)) this.bad(['U02', 'U01'], 'an upload to a path that can never be requested was accepted', { path: f.path }); this.cnt('unservable path refused'); return; }
    if (f.invalid) { if (isOk(r)) { this.up.set(f.path, { ...f, state: 'Init', acc: new Map(), sure: false, at: this.w.time }); } return; }
    if (!hit && !isOk(r)) this.bad(this.tags('U01'), 'a new upload was refused', { r: js(r) });
    if (isOk(r)) { this.up.set(f.path, { ...f, state: 'Init', acc: new Map(), sure: true, at: this.w.time }); this.cnt('init.ok'); } else this.cnt('init failed by a fault');
  }
  store(p, id, data, caller = this.ctl, plan) { const x = this.call(caller, 'store_chunk', { file_path: p, chunk_id: BigInt(id), chunk_data: data }, plan); this.judgeStore(p, id, data, x); return x.r; }
  judgeStore(p, id, data, { r, hit, lost }) {
    const u = this.rec(p); this.note('chunk ' + p + ' ' + id + ' (' + data.length + ')' + (hit ? ' fault' : '') + ' -> ' + js(r).slice(0, 120));
    if (r.reject) this.bad(['X02', 'U01', ...(hit ? ['U03'] : [])], 'store_chunk failed: ' + r.reject[1]);
    if (CONC(r)) this.bad(['G01', 'U03'], 'a chunk is refused as concurrent while no management call is pending');
    if (!u) { if (err(r) !== 'UploadNotInitialized') this.bad(this.tags('U01'), 'a chunk for an unknown upload was not refused as such', { r: js(r) }); this.cnt('chunk of unknown refused'); return; }
    if (u.state === 'Finalized') { if (err(r) !== 'UploadAlreadyFinalized') this.bad(this.tags('U01'), 'a chunk for a finalised upload was not refused as such', { r: js(r) }); this.cnt('chunk of finalised refused'); return; }
    const i = Number(id), proper = id < BigInt(u.n) && data.length === this.chunk(u, i).length && data.length > 0, fresh = !u.acc.has(i);
    if (isOk(r)) { if (!proper) u.sure = false; if (!fresh && u.sure && !hit) { u.acc.get(i).push(data); } else if (!u.acc.has(i)) u.acc.set(i, [data]); else u.acc.get(i).push(data); u.state = 'InProgress'; this.cnt('chunk.ok'); if (id >= BigInt(u.n)) this.bad(this.tags('U01'), 'a chunk beyond the end of the file was accepted', {}); return; }
    if (proper && fresh && u.sure && !hit) this.bad(this.tags('U01'), 'a proper chunk was refused', { r: js(r), path: p, id: String(id) });
    if (hit && lost) { u.sure = false; (u.maybe = u.maybe || []).push([i, data]); } this.cnt('chunk refused');
  }
  // what is known about the stored content: 'good', 'bad' or '?'
  content(u) {
    if (u.hash !== hex(u.body)) return 'bad';
    let all = true, q = !u.sure;
    for (let i = 0; i < u.n; i++) {
      const a = u.acc.get(i), want = this.chunk(u, i); if (!a) { if ((u.maybe || []).some(([k, d]) => k === i && Buffer.compare(d, want) === 0)) { q = true; continue; } return 'bad'; }
      if (!a.some(d => Buffer.compare(d, want) === 0)) return (u.maybe || []).some(([k]) => k === i) ? '?' : 'bad';
      if (a.length > 1 && !a.every(d => Buffer.compare(d, want) === 0)) q = true;
    }
    return q ? '?' : all ? 'good' : 'bad';
  }
  fin(p, caller = this.ctl, plan) { const x = this.call(caller, 'finalize_upload', { file_path: p }, plan); this.judgeFin(p, x); return x.r; }
  judgeFin(p, { r, hit, lost }) {
    const u = this.rec(p); this.note('finalize ' + p + (hit ? ' fault' : '') + ' -> ' + js(r).slice(0, 140));
    if (r.reject) this.bad(['X02', 'U01', 'U02', ...(hit ? ['U03'] : [])], 'finalize_upload failed: ' + r.reject[1]);
    if (CONC(r)) this.bad(['G01', 'U03'], 'finalising is refused as concurrent while no management call is pending');
    if (!u || u.state === 'Init') { if (isOk(r)) this.bad(this.tags('U01', 'U02'), 'an upload that was ' + (u ? 'never started' : 'unknown') + ' was finalised', {}); if (err(r) !== 'UploadNotStarted') this.bad(this.tags('U01'), 'finalising an upload without chunks answers ' + js(r)); this.cnt('finalize of unknown refused'); return; }
    if (u.state === 'Finalized') { if (err(r) !== 'UploadAlreadyFinalized') this.bad(this.tags('U01'), 'finalising a finalised upload answers ' + js(r)); this.cnt('finalize of finalised refused'); return; }
    const k = this.content(u);
    if (isOk(r)) {
      if (k === 'bad') this.bad(this.tags('U01', 'U02'), 'an incomplete or corrupted file was finalised', { path: p });
      const url = r.ok.Ok.url; if (url !== 'https://' + this.c.id + '.raw.icp0.io' + rp(p)) this.bad(['U02'], 'finalising reports a wrong address', { url, path: p });
      u.state = 'Finalized'; this.cnt('finalize.ok'); if (hit) this.cnt('finalize.ok despite a fault'); return;
    }
    if (k === 'good' && !hit && !u.forgotten && !u.finLost) this.bad(this.tags('U01'), 'finalising a complete upload was refused', { r: js(r), path: p, finLost: !!u.finLost });
    if (!hit && u.finLost) { u.finLost = false; u.forgotten = true; }
    if (k !== 'good') { u.forgotten = true; u.sure = false; this.cnt('finalize of bad content refused'); } else if (lost) { u.finLost = true; u.sure = false; }
    if (hit) this.cnt('finalize failed by a fault');
  }
  cancel(p, caller = this.ctl, plan) { const x = this.call(caller, 'cancel_upload', { file_path: p }, plan); this.judgeCancel(p, x); return x.r; }
  judgeCancel(p, { r, hit, lost }) {
    const u = this.rec(p); this.note('cancel ' + p + (hit ? ' fault' : '') + ' -> ' + js(r).slice(0, 120));
    if (r.reject) this.bad(['X02', 'U01', ...(hit ? ['U03'] : [])], 'cancel_upload failed: ' + r.reject[1]);
    if (CONC(r)) this.bad(['G01', 'U03'], 'cancelling is refused as concurrent while no management call is pending');
    if (!u) { if (err(r) !== 'UploadNotInitialized') this.bad(this.tags('U01'), 'cancelling an unknown upload answers ' + js(r)); this.cnt('cancel of unknown refused'); return; }
    if (u.state === 'Finalized') { if (err(r) !== 'UploadAlreadyFinalized') this.bad(this.tags('U01'), 'cancelling a finalised upload answers ' + js(r)); this.cnt('cancel of finalised refused'); return; }
    if (isOk(r)) { this.up.delete(p); this.cnt('cancel.ok'); return; }
    if (!hit && !u.finLost) this.bad(this.tags('U01'), 'cancelling an unfinished upload was refused', { r: js(r) });
    if (lost) { u.sure = false; u.forgotten = true; } this.cnt('cancel failed by a fault');
  }
  // ---- observation
  status(p) { const r = this.c.q(this.ctl, 'get_upload_status', p); if (r.reject) this.bad(['X02', 'U01'], 'get_upload_status failed: ' + r.reject[1]); return isOk(r) ? tag(r.ok.Ok) : err(r) === 'UploadNotFound' ? null : js(r.ok); }
  list(prev, take) { const r = this.c.q(this.ctl, 'get_all_uploads', prev, take); if (r.reject || !isOk(r)) this.bad(['X02', 'U01'], 'get_all_uploads failed: ' + js(r)); return r.ok.Ok; }
  get(url, caller = this.ctl) { const r = this.c.q(caller, 'http_request', HTTP.req(url)); if (r.reject) this.bad(['X02', 'H01', 'U02'], 'http_request failed: ' + r.reject[1], { url }); return r.ok; }
  audit(full) {
    this.cnt('audits');
    for (const [p, u] of this.up) { const s = this.status(p); if (s !== u.state) this.bad(this.tags('U01'), 'the status of an upload is ' + s + ' and should be ' + u.state, { path: p }); this.cnt('statuses checked'); }
    for (const p of this.rng.shuffle(PATHS.slice()).slice(0, 3)) if (this.used(p) === null && this.status(p) !== null) this.bad(this.tags('U01'), 'an unknown path has a status', { path: p });
    const all = this.list(null, null); this.checkList(all, 100);
    if (full) { // pages
      const k = BigInt(this.rng.pick([1, 2, 3, 5])); let got = []; for (let at = 0n; ; at += k) { const l = this.list(at, k); if (l.length > Number(k)) this.bad(['U01', 'Q01'], 'a page is longer than asked for', { take: String(k), got: l.length }); if (!l.length) break; got = got.concat(l); if (got.length > this.up.size + 10) break; }
      this.checkList(got, Infinity); this.cnt('upload pages');
      if (this.list(1n << 64n, null).length || this.list(BigInt(this.up.size), null).length) this.bad(['U01'], 'a page beyond the end is not empty');
    }
    this.http(full);
  }
  checkList(l, cap) { const m = new Map(l.map(([p, s]) => [p, tag(s)])); if (m.size !== l.length) this.bad(this.tags('U01'), 'the list of uploads names a path twice', { l: js(l) }); if (m.size !== Math.min(this.up.size, cap)) this.bad(this.tags('U01'), 'the list of uploads has ' + m.size + ' entries instead of ' + this.up.size, { l: js(l).slice(0, 500) }); for (const [p, s] of m) if (!this.up.has(p) || this.up.get(p).state !== s) this.bad(this.tags('U01'), 'the list of uploads is wrong about ' + p, { s }); }
  certified(r, path) { const v = HTTP.verify(r, path, this.w.canisters.get(this.c.id)); if (v) this.bad(['H01'], 'the answer for a path is not properly certified: ' + v, { path, status: r.status_code, headers: js(r.headers).slice(0, 300) }); this.cnt('certificates verified'); }
  http(full) {
    const fin = [...this.up].filter(([, u]) => u.state === 'Finalized');
    for (const [p] of fin) { const r = this.get(rp(p)); if (Number(r.status_code) !== 307) this.bad(this.tags('U02'), 'a finalised file is not redirected: status ' + r.status_code, { path: p }); this.certified(r, rp(p)); this.cnt('redirects'); const loc = HTTP.head(r, 'location'); if (!loc || !loc.endsWith('.raw.icp0.io' + rp(p))) this.bad(this.tags('U02'), 'the redirect leads to another path', { path: p, loc }); }
    for (const p of [...[...this.up].filter(([, u]) => u.state !== 'Finalized').map(x => x[0]), ...this.rng.shuffle(PATHS.slice()).slice(0, 3), '/nope/' + this.rng.int(99), '/']) {
      const k = this.used(p); if (k !== null && this.up.get(k).state === 'Finalized') continue;
      const r = this.get(rp(p)), sc = Number(r.status_code); if (sc >= 300 && sc < 400) this.bad(this.tags('U02', 'H01'), 'a path without a finalised upload is redirected', { path: p, loc: HTTP.head(r, 'location') }); if (sc < 400) this.bad(['H01'], 'a path without a finalised upload answers ' + sc, { path: p }); this.cnt('unknown paths');
    }
    if (full) {
      for (const p of ['/logs', '/traces', '/metrics']) { const r = this.get(p); if (Number(r.status_code) !== 200) this.bad(['H01'], 'page ' + p + ' answers ' + r.status_code); try { const v = JSON.parse(Buffer.from(r.body).toString()); if (typeof v !== 'object' || v === null || (p !== '/metrics' && !Array.isArray(v))) this.bad(['H01'], 'page ' + p + ' is not the expected JSON'); } catch (e) { if (e instanceof Violation) throw e; this.bad(['H01'], 'page ' + p + ' is no valid JSON: ' + e.message); } this.certified(r, p); this.cnt('pages verified'); }
      for (const [p, u] of fin) this.follow(p, u);
    }
  }
  follow(p, u) { const r = this.get(rp(p)); const f = HTTP.fetchStorage(this.c, HTTP.head(r, 'location') || '', this.ctl); if (f.err) this.bad(this.tags('U02'), 'the redirect of a finalised file cannot be followed: ' + f.err, { path: p }); if (Buffer.compare(f.body, u.body) !== 0) this.bad(this.tags('U02'), 'the bytes served differ from those uploaded', { path: p, got: f.body.length, want: u.body.length }); this.cnt('files fetched'); }
  snapshot() { // everything a management call could change
    const q = (m, ...a) => js(this.c.q(this.ctl, m, ...a)); const L = js(this.list(null, 1000n).sort((a, b) => (a[0] < b[0] ? -1 : 1)));
    const perms = [this.ctl, ...Object.values(this.users)].map(p => q('get_user_permissions', { principal: p }));
    return { uploads: L, cmeta: js((this.c.q(this.ctl, 'icrc7_collection_metadata').ok || []).slice().sort((a, b) => (a[0] < b[0] ? -1 : 1))), supply: q('icrc7_total_supply'), owners: q('icrc7_owner_of', [1n, 2n, 3n]), meta: q('icrc7_token_metadata', [1n]), perms, subs: js((this.c.q(this.ctl, 'get_all_storage_subcanisters').ok || []).slice().sort()), certified: this.w.canisters.get(this.c.id).certified.toString('hex'), log: q('icrc3_get_blocks', [{ start: 0n, length: 20n }]) };
  }
  same(a, b, tags, what) { for (const k of Object.keys(a)) if (js(a[k]) !== js(b[k])) this.bad(tags, what + ' (' + k + ')', { before: js(a[k]).slice(0, 400), after: js(b[k]).slice(0, 400) }); }
  // ---- other moves
  denied() { // callers without the permission
    const { uploader, reader, other, nobody, anon } = this.users, r = this.rng; const before = this.snapshot(); const p = r.pick(PATHS), f = this.newFile(p);
    const who = r.pick([reader, other, nobody, anon]); const m = r.pick(['init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload']);
    const un = [...this.up].filter(x => x[1].state !== 'Finalized').map(x => x[0]); const q = un.length ? r.pick(un) : p;
    const arg = m === 'init_upload' ? this.init(f, who, null, true) : m === 'store_chunk' ? { file_path: q, chunk_id: 0n, chunk_data: Buffer.from('x') } : { file_path: q };
    const x = this.call(who, m, arg); this.note('denied ' + m); if (!x.r.reject) this.bad(['P01'], m + ' was not refused for a caller without the permission', { r: js(x.r) }); this.cnt('denied ' + m);
    const rd = r.pick([uploader, other, nobody, anon]); for (const [mm, a] of [['get_upload_status', [p]], ['get_all_uploads', [null, null]]]) { const y = this.c.q(rd, mm, ...a); if (!y.reject) this.bad(['P01'], mm + ' was answered to a caller without the permission', { r: js(y).slice(0, 200) }); this.cnt('denied ' + mm); }
    const out = r.pick([uploader, reader, nobody, anon]), sl = this.c.q(out, 'get_all_storage_subcanisters'); if (!sl.reject) this.bad(['P01'], 'get_all_storage_subcanisters was answered to a caller without the permission', { r: js(sl) });
    const z = this.c.q(reader, 'get_upload_status', p); if (z.reject) this.bad(['P01', 'X02'], 'get_upload_status was refused to a caller holding the permission', { r: js(z) });
    this.same(before, this.snapshot(), ['P01'], 'a refused call changed the state');
  }
  elapse(ns) {
    for (let left = BigInt(ns); left > 0n;) { const h = left > HOUR ? HOUR : left; left -= h; this.w.advance(h); for (let k = 0; k < 3; k++) { if (!this.w.fireTimers()) break; this.w.run(); } } this.note('time +' + ns / SEC + ' s'); const now = this.w.time; if (ns >= DAY) this.cnt('days passed');
    for (const [p, u] of [...this.up]) { if (u.state === 'Finalized') continue; const s = this.status(p), age = now - u.at;
      if (s === null) { if (age <= DAY) this.bad(this.tags('U01'), 'the clean-up dropped an upload that is not a day old', { path: p, age_s: String(age / SEC) }); this.up.delete(p); this.cnt('dropped by the clean-up'); } else if (now - (this.started > u.at + DAY ? this.started : u.at + DAY) > DAY + 3n * HOUR && !this.gcFault && !u.finLost) this.bad(this.tags('U01'), 'the clean-up left an unfinished upload that is more than two days old', { path: p, age_s: String(age / SEC) }); else if (age > 0n) this.cnt('kept by the clean-up'); }
  }
  upgrade() {
    const a = this.snapshot(); const red = [...this.up].filter(x => x[1].state === 'Finalized').map(([p]) => [p, HTTP.head(this.get(rp(p)), 'location')]);
    const r = this.c.upgradeTo(this.wasm, this.ctl); this.w.run(); this.note('upgrade'); if (!r.ok) this.bad(['X01'], 'the canister cannot be upgraded', { trap: r.trap });
    this.started = this.w.time; this.upgrades++; this.cnt('upgrades'); const b = this.snapshot(); delete a.certified; delete b.certified;
    this.same(a, b, ['X01'], 'an upgrade changed the state');
    for (const [p, l] of red) { const x = this.get(rp(p)); if (HTTP.head(x, 'location') !== l) this.bad(['X01', 'U02'], 'an upgrade changed a redirect', { path: p, before: l, after: HTTP.head(x, 'location') }); }
  }
  randomPlan() { const r = this.rng; if (!this.o.faults || !r.chance(this.o.faults)) return null; return { mode: r.pick(['reject', 'rejectSys', 'lose', 'unknown', 'garbage', 'refuse']), skip: r.pick([0, 0, 0, 1, 2, 3]), times: r.pick([1, 1, 2, 3, 3, 99]) }; }
  // one management call of any kind; used to probe the lock
  probe() {
    const r = this.rng, meta = []; const p = r.pick(PATHS);
    return r.pick([
      ['mint', { mint_requests: [{ token_owner: { owner: P.user('alice'), subaccount: null }, metadata: meta, memo: null }] }], ['update_nft_metadata', { token_id: 1n, metadata: [['a', { Text: 'x' + r.int(99) }]] }], ['burn_nft', 1n],
      ['update_collection_metadata', { description: 'd' + r.int(999), symbol: null, name: null, logo: null, supply_cap: null, max_query_batch_size: null, max_update_batch_size: null, max_take_value: null, default_take_value: null, max_memo_size: null, atomic_batch_transfers: null, tx_window: null, permitted_drift: null, max_canister_storage_threshold: null, collection_metadata: null }],
      ['grant_permission', { principal: P.user('nobody'), permission: r.pick(PERMS) }], ['revoke_permission', { principal: this.users.other, permission: 'Minting' }],
      ['init_upload', { file_path: p, file_hash: 'x', file_size: 3n, chunk_size: null }], ['store_chunk', { file_path: p, chunk_id: 0n, chunk_data: Buffer.from('abc') }], ['finalize_upload', { file_path: p }], ['cancel_upload', { file_path: p }]]);
  }
  // submits a management call and stops it while it waits for another canister
  pendingCall(m, arg, judge, o = {}) {
    const r = this.rng; const l0 = this.lost; let budget = r.int(3); const self = this.c.id;
    this.plan = null; this.w.hold = x => x.from === self && x.type === 'req' || (x.type === 'resp' && x.to === self);
    const h = this.c.send(o.caller || this.ctl, m, arg); this.w.run();
    while (!h.done && budget-- > 0) { this.w.hold = null; this.w.step(); this.w.hold = x => x.from === self && x.type === 'req' || (x.type === 'resp' && x.to === self); this.w.run(); }
    if (h.done) { this.w.hold = null; this.w.run(); judge({ r: this.c.dec(h.res), hit: 0, lost: 0 }); this.cnt('calls that did not wait'); return; }
    this.cnt('pending calls observed'); this.note('pending ' + m);
    if (this.o.distinct) this.o.distinct.add(sha('pending ' + m + ' ' + this.w.queue.map(x => x.type + (x.method || (x.req && x.req.method) || '')).join()));
    const before = this.snapshot();
    for (let k = r.range(1, 4); k > 0; k--) { // further management calls
      const [pm, pa] = this.probe(); const who = r.pick([this.ctl, this.ctl, ...(/upload|chunk/.test(pm) ? [this.users.uploader] : /mint|metadata|permission/.test(pm) ? [this.users.other] : [P.user('alice')])]);
      const hh = this.c.send(who, pm, pa); this.w.run(); if (!hh.done) this.bad(['G01'], 'a second management call is waiting while another is pending', { pending: m, second: pm });
      const res = this.c.dec(hh.res); this.note('  while pending: ' + pm + ' -> ' + js(res).slice(0, 90)); if (!CONC(res)) this.bad(['G01'], 'a management call was admitted while another was pending', { pending: m, second: pm, r: js(res).slice(0, 300), same_caller: who === this.ctl }); this.cnt('refused as concurrent: ' + pm);
    }
    this.same(before, this.snapshot(), ['G01'], 'a call refused as concurrent changed the state');
    if (o.abandon) { this.w.hold = null; this.w.queue = this.w.queue.filter(x => !(x.from === self || x.to === self)); const c = this.w.canisters.get(self); c.ctxs.clear(); this.upgrade(); this.cnt('upgrades with a pending call'); this.faulted = true; return 'abandoned'; }
    this.plan = r.chance(o.fault === undefined ? 0.4 : o.fault) ? { hits: 0, mode: r.pick(['reject', 'rejectSys', 'lose', 'garbage', 'refuse']), skip: r.int(2), times: r.pick([1, 3, 99]) } : null;
    const pl = this.plan; this.w.hold = null; this.w.run(); this.plan = null; if (!h.done) this.bad(['X02', 'U03', 'G01'], 'a management call never ends', { m });
    if (pl && pl.hits) this.faulted = true; judge({ r: this.c.dec(h.res), hit: pl ? pl.hits : 0, lost: this.lost - l0 });
    const x = this.call(this.ctl, 'grant_permission', { principal: P.user('later'), permission: r.pick(PERMS) }); if (CONC(x.r)) this.bad(['G01'], 'the lock is still held after the pending call ended', { m, ended: js(this.c.dec(h.res)).slice(0, 300) }); this.cnt('lock released');
  }
  pick(state) { const l = [...this.up].filter(([, u]) => !state || state.includes(u.state)).map(x => x[0]); return l.length ? this.rng.pick(l) : null; }
  // one random move
  move(wts) {
    const r = this.rng, k = r.weighted(wts); this.cnt('move ' + k);
    const caller = r.chance(0.15) ? this.users.uploader : this.ctl;
    switch (k) {
      case 'init': { let p = r.pick(PATHS); const o = {}; if (r.chance(0.07)) { p = r.pick(UNSERVABLE); } else if (r.chance(0.1) && this.pick()) { p = this.pick(); if (r.chance(0.5)) p = p.startsWith('/') ? p.slice(1) : '/' + p; } if (r.chance(0.08)) o.badHash = true; if (r.chance(0.015)) { o.size = 2_200_000 + r.int(1000); o.cs = null; } const f = this.newFile(p, o); if (UNSERVABLE.includes(p)) f.unservable = true; this.init(f, caller, this.randomPlan()); break; }
      case 'bad': { const p = r.pick(PATHS); if (this.used(p) !== null) break; const f = this.newFile(p); f.invalid = true; if (r.chance(0.3)) f.size = 3 * 1024 * 1024 * 1024; else f.cs = r.pick([0, 2 ** 40]); f.n = 1; this.init(f, caller); break; }
      case 'chunk': { const p = this.pick(['Init', 'InProgress']) || r.pick(PATHS); const u = this.rec(p); if (!u) { this.store(p, 0n, Buffer.from('abc'), caller); break; } let i = r.int(u.n); for (let t = 0; t < 4 && u.acc.has(i); t++) i = r.int(u.n); let d = this.chunk(u, i), id = BigInt(i); if (r.chance(0.06)) d = Buffer.from(d.map((b, j) => (j === 0 ? b ^ 1 : b))); else if (r.chance(0.03)) d = d.subarray(0, d.length - 1); else if (r.chance(0.03)) d = Buffer.concat([d, Buffer.from('x')]); else if (r.chance(0.03)) id = BigInt(u.n) + BigInt(r.pick([0, 1, 100])); this.store(p, id, d, caller, this.randomPlan()); break; }
      case 'complete': { const p = this.pick(['Init', 'InProgress']); if (!p) break; const u = this.rec(p); for (const i of r.shuffle([...Array(u.n).keys()])) if (!u.acc.has(i)) this.store(p, BigInt(i), this.chunk(u, i), caller, this.randomPlan()); if (r.chance(0.8)) this.fin(p, caller, this.randomPlan()); break; }
      case 'late': { const p = this.pick(['Finalized']); if (!p) break; const u = this.rec(p); this.store(p, BigInt(r.int(u.n + 1)), r.bytes(4), caller); break; }
      case 'fin': { const p = r.chance(0.85) && this.pick() ? this.pick() : r.pick(PATHS); this.fin(p, caller, this.randomPlan()); break; }
      case 'cancel': { const p = r.chance(0.85) && this.pick() ? this.pick() : r.pick(PATHS); this.cancel(p, caller, this.randomPlan()); break; }
      case 'time': { const ns = BigInt(r.pick([1, 60, 3600, 80_000, 86_300, 86_401, 100_000, 190_000])) * SEC; if (this.o.faults && r.chance(0.3)) { this.plan = { hits: 0, mode: r.pick(['reject', 'lose', 'garbage', 'refuse']), skip: r.int(3), times: r.pick([1, 3, 99]) }; this.gcFault = true; this.elapse(ns); this.plan = null; this.faulted = true; for (const u of this.up.values()) if (u.state !== 'Finalized' && this.w.time - u.at > DAY) { u.sure = false; u.forgotten = true; } this.started = this.w.time; this.gcFault = false; } else this.elapse(ns); break; }
      case 'upgrade': this.upgrade(); break;
      case 'denied': this.denied(); break;
      case 'mint': { const x = this.call(this.ctl, 'mint', { mint_requests: [{ token_owner: { owner: P.user('alice'), subaccount: null }, metadata: [], memo: null }] }); this.note('mint'); if (CONC(x.r)) this.bad(['G01'], 'a mint is refused as concurrent while no management call is pending'); if (!isOk(x.r) && !x.r.reject) this.cnt('mint refused'); break; }
      case 'pending': {
        const t = r.pick(['init', 'init', 'chunk', 'chunk', 'fin', 'fin', 'cancel']); const ab = r.chance(0.1) && this.o.abandon !== false;
        if (t === 'init') { const p = r.pick(PATHS); if (this.used(p) !== null) break; const f = this.newFile(p); if (this.pendingCall('init_upload', this.init(f, this.ctl, null, true), x => this.judgeInit(f, x, null), { abandon: ab }) === 'abandoned') { /* nothing recorded */ } } else {
          const p = this.pick(t === 'fin' ? ['InProgress'] : ['Init', 'InProgress']); if (!p) break; const u = this.rec(p); let res;
          if (t === 'chunk') { let i = r.int(u.n); for (let q = 0; q < 5 && u.acc.has(i); q++) i = r.int(u.n); const d = this.chunk(u, i); res = this.pendingCall('store_chunk', { file_path: p, chunk_id: BigInt(i), chunk_data: d }, x => this.judgeStore(p, BigInt(i), d, x), { abandon: ab }); if (res) { u.sure = false; (u.maybe = u.maybe || []).push([i, d]); } }
          if (t === 'fin') { res = this.pendingCall('finalize_upload', { file_path: p }, x => this.judgeFin(p, x), { abandon: ab }); if (res) { if (this.content(u) === 'good') { u.finLost = true; u.sure = false; } else { u.sure = false; u.forgotten = true; } } }
          if (t === 'cancel') { res = this.pendingCall('cancel_upload', { file_path: p }, x => this.judgeCancel(p, x), { abandon: ab }); if (res) { u.sure = false; u.forgotten = true; } }
        }
        break;
      }
    }
    if (this.env.distinct) this.env.distinct.add(sha(k + '|' + [...this.up.values()].map(u => u.state + u.acc.size + (u.sure ? '' : '?') + '/' + u.n).sort().join() + '|' + (this.log[this.log.length - 1] || '').replace(/[^a-zA-Z]+/g, ' ').slice(-40)));
  }
}
const W = { base: { init: 14, bad: 0.4, chunk: 20, complete: 14, late: 2, fin: 6, cancel: 5, time: 4, upgrade: 3, denied: 2, mint: 1, pending: 0 } };
W.lock = { ...W.base, pending: 30, complete: 6, time: 1, denied: 0 }; W.perms = { ...W.base, denied: 25, time: 1 }; W.faults = { ...W.base, upgrade: 2, denied: 0, cancel: 8, pending: 2 }; W.gc = { ...W.base, time: 14, chunk: 14 }; W.upgrade = { ...W.base, upgrade: 14 };
// random life cycles
function uploads(spec, env) {
  const s = new Uploads(env, { faults: spec.faults || 0, distinct: env.distinct, build: spec.build, world: spec.world }); const w = { ...(W[spec.profile] || W.base), ...spec.weights };
  for (let k = 0; k < spec.steps; k++) { s.move(w); if (k % 6 === 5) s.audit(k % 18 === 17); }
  s.audit(true); if (spec.profile === 'faults' || spec.faults) recover(s); if (env.samples.length < 1) env.samples.push({ recent: s.log.slice(-8) });
}
// once the faults are gone, every unfinished upload can be retried, or cancelled and started over
function recover(s) {
  for (const [p, u] of [...s.up]) {
    if (u.state === 'Finalized' || s.rng.chance(0.3)) continue;
    const f = { path: p, body: u.body, size: u.size, cs: u.cs, n: u.n, hash: u.invalid ? u.hash : hex(u.body) };
    if (!u.sure || u.forgotten || s.content(u) === 'bad' || s.rng.chance(0.5)) { if (u.finLost) s.fin(p); if (s.rec(p).state === 'Finalized') continue; s.cancel(p); s.init(f); }
    const v = s.rec(p); for (let i = 0; i < v.n; i++) if (!v.acc.has(i)) s.store(p, BigInt(i), s.chunk(v, i));
    if (u.invalid) continue; s.fin(p); if (s.rec(p).state !== 'Finalized') s.bad(['U03', 'U01'], 'an upload could not be completed after the faults were gone', { path: p }); s.cnt('recovered uploads');
  }
  s.audit(true);
}
// enumerates one fault position per scenario
const OPS = ['initFirst', 'initNext', 'chunkFirst', 'chunkNext', 'fin', 'cancel', 'gc', 'chunkFresh', 'finOnly'];
const MODES = ['reject', 'rejectSys', 'lose', 'unknown', 'garbage', 'refuse'];
function faultCases() { const l = []; for (const op of OPS) for (const mode of MODES) for (const skip of op === 'initFirst' ? [0, 1, 2, 3] : op === 'initNext' ? [0, 1, 2, 3, 4, 5] : [0, 1]) for (const times of [1, 2, 3, 4, 7]) l.push({ op, mode, skip, times }); return l; }
const CASES = faultCases();
function uploadFaults(spec, env) {
  const k = (spec.index * (spec.per || 1)); for (let j = k; j < k + (spec.per || 1) && j < CASES.length; j++) oneFault(CASES[j], env);
}
function oneFault(c, env) {
  const s = new Uploads(env, { build: 'prod' }); const plan = { mode: c.mode, skip: c.skip, times: c.times }; s.note('case ' + js(c));
  const file = (p, size, cs) => ({ ...s.newFile(p, { size, cs }) });
  const A = file('/done.txt', 25, 10), B = file('half.txt', 30, 10), X = file('/x.txt', c.op === 'chunkFresh' || c.op === 'finOnly' ? 10 : 20, 10);
  const all = f => { s.init(f); for (let i = 0; i < f.n; i++) s.store(f.path, BigInt(i), s.chunk(f, i)); s.fin(f.path); };
  if (c.op !== 'initFirst') { all(A); s.init(B); s.store(B.path, 1n, s.chunk(B, 1)); }
  let r;
  switch (c.op) {
    case 'initFirst': case 'initNext': r = s.init(X, s.ctl, plan); break;
    case 'chunkFirst': case 'chunkFresh': s.init(X); r = s.store(X.path, 0n, s.chunk(X, 0), s.ctl, plan); break;
    case 'chunkNext': s.init(X); s.store(X.path, 1n, s.chunk(X, 1)); r = s.store(X.path, 0n, s.chunk(X, 0), s.ctl, plan); break;
    case 'fin': case 'finOnly': s.init(X); for (let i = 0; i < X.n; i++) s.store(X.path, BigInt(i), s.chunk(X, i)); r = s.fin(X.path, s.ctl, plan); break;
    case 'cancel': s.init(X); s.store(X.path, 0n, s.chunk(X, 0)); r = s.cancel(X.path, s.ctl, plan); break;
    case 'gc': s.init(X); s.store(X.path, 0n, s.chunk(X, 0)); s.plan = { hits: 0, ...plan }; s.gcFault = true; s.elapse(2n * DAY + 4n * HOUR); s.plan = null; s.gcFault = false; s.faulted = true; s.started = s.w.time; for (const u of s.up.values()) if (u.state !== 'Finalized') { u.sure = false; u.forgotten = true; } break;
  }
  s.audit(true); s.cnt('fault positions'); env.distinct.add(sha(js(c) + '|' + js(r || null).slice(0, 200)));
  // retry at once; where the storage canister already holds the effect, cancel and start over
  if (c.op !== 'gc') {
    const u = s.rec(X.path);
    if (!u) { s.init(X); if (c.op === 'cancel' && !isOk(r)) s.bad(['U03'], 'the upload vanished although cancelling reported an error'); }
    else if (u.state !== 'Finalized' && c.op === 'cancel') { s.cancel(X.path); s.init(X); }
    else if (u.state !== 'Finalized' && (c.op === 'fin' || c.op === 'finOnly')) { const ex = !s.lost; s.fin(X.path); if (ex && s.rec(X.path).state !== 'Finalized') s.bad(['U03'], 'finalising cannot be retried although the storage canister never saw the first attempt', { case: js(c) }); }
    const v = s.rec(X.path); if (v && v.state !== 'Finalized') { for (let i = 0; i < v.n; i++) if (!v.acc.has(i)) s.store(X.path, BigInt(i), s.chunk(v, i)); if ([...Array(v.n).keys()].every(i => v.acc.has(i))) s.fin(X.path); }
    if (s.rec(X.path).state !== 'Finalized') { if (s.rec(X.path).finLost) s.fin(X.path); s.cancel(X.path); all(X); }
    if (s.rec(X.path).state !== 'Finalized') s.bad(['U03'], 'an upload could not be completed after the fault was gone', { case: js(c) });
  } else { for (const f of [X, B]) if (s.rec(f.path)) s.cancel(f.path); all(X); all(B); }
  const b = s.rec(B.path); if (b && b.state !== 'Finalized') { if (c.op === 'gc') s.cancel(B.path); else { for (let i = 0; i < b.n; i++) if (!b.acc.has(i)) s.store(B.path, BigInt(i), s.chunk(b, i)); s.fin(B.path); } }
  if (c.op === 'initFirst') all(A);
  s.elapse(3600n * SEC); s.upgrade(); s.audit(true);
}
module.exports = { W, recover, err, isOk, rp, PATHS, Uploads, uploads, uploadFaults, CASES };
