'use strict';
// Storage canisters and archives: which canister a file goes to, when one is created, who may use
// them and how they are kept funded.  Every message between the collection and its canisters is
// observed, with the answer that reached the collection.
const fs = require('fs'), path = require('path'), crypto = require('crypto');
const { World } = require('../sim/replica');
const { Core, PERMS } = require('../sim/core');
const { decode, encode, T } = require('../sim/candid');
const P = require('../sim/principal');
const { js, tag, sha } = require('./util');
const HTTP = require('./http');
const { Uploads, W, recover, isOk, rp, PATHS } = require('./uploads');
const { REPO } = require('./build');
const SEC = 1_000_000_000n, TC = 1_000_000_000_000n, GIB = 1024n ** 3n;
const ROOM = 500n * GIB, FILE = 2n * GIB;
const FOR = { store_chunk: 'store_chunk', finalize_upload: 'finalize_upload', cancel_upload: 'cancel_upload' };
const sha256 = b => crypto.createHash('sha256').update(b).digest('hex');
const dec = r => { if (!r.reply) return undefined; try { return decode(r.reply)[0]; } catch (e) { return undefined; } };
let MODULES = null;
const modules = () => MODULES || (MODULES = ['storage_canister.wasm', 'storage_canister.wasm.gz'].map(f => path.join(REPO, 'wasm', f)).filter(f => fs.existsSync(f)).map(f => sha256(fs.readFileSync(f))));

class Storage extends Uploads {
  constructor(env, o) {
    const rng = env.rng; const extra = ['x1', 'x2', 'x3'].map(n => [P.user(n), PERMS.filter(() => rng.chance(0.4))]);
    super(env, { ...o, perms: () => extra });
    this.extra = extra; this.known = new Map(); this.holder = new Map(); this.fake = new Map(); this.ev = null; this.arch = new Set();
    this.trusted = new Set([this.c.id, this.ctl, this.users.other, ...extra.filter(x => x[1].includes('ManageAuthorities')).map(x => x[0])]);
    const w = this.w, self = this;
    w.respond = function (m, res) { if (self.ev && m.type === 'req' && m.from === self.c.id) self.ev.push({ to: m.to, method: m.method, arg: m.arg, cycles: m.cycles, res }); return World.prototype.respond.call(this, m, res); };
    w.fault = m => { const f = this.inject(m); if (f) return f; if (m.method === 'get_storage_size' && this.fake.has(m.to)) return { answer: encode([T.nat], [this.fake.get(m.to)]) }; return null; };
  }
  call(caller, m, arg, plan) {
    this.ev = []; const before = this.up.get(arg && arg.file_path); const x = super.call(caller, m, arg, plan); const ev = this.ev; this.ev = null;
    if (m === 'init_upload') this.routeInit(arg, x, ev);
    else if (FOR[m]) this.routeFile(m, arg, x, ev, before);
    else if (ev.length) this.bad(['U05', 'U04'], m + ' calls other canisters', { to: js(ev.map(e => e.method)) });
    if (x.r.reject && ev.length && !x.hit) this.bad(['U04', 'P01'], 'a refused call reached another canister', { m, calls: js(ev.map(e => e.method)) });
    this.listed();
    return x;
  }
  refuse(self, pnd) { if (pnd.callee === self.id || !super.refuse(self, pnd)) return false; if (this.ev) this.ev.push({ to: pnd.callee, method: pnd.method, arg: Buffer.concat(pnd.data), cycles: pnd.cycles, res: { reject: [2, 'not sent'] } }); return true; }
  // every canister whose creation was confirmed is listed, and no other
  listed() {
    const r = this.c.q(this.ctl, 'get_all_storage_subcanisters'); if (r.reject) this.bad(['X02', 'U05'], 'the list of storage canisters is not answered: ' + r.reject[1]);
    const got = r.ok, want = [...this.known.keys()]; this.cnt('lists checked');
    if (new Set(got).size !== got.length || got.length !== want.length || !want.every(k => got.includes(k))) this.bad(['U05'], 'the list of storage canisters differs from those created', { got: js(got), want: js(want) });
    for (const k of want) { const c = this.w.canisters.get(k).controllers; if (!c.every(x => x === this.c.id)) this.bad(['U04'], 'a storage canister is controlled by somebody else than the collection', { controllers: js(c) }); }
  }
  routeInit(arg, x, ev) {
    const size = arg.file_size, ask = new Map(), took = new Map(); let fresh = null, created = 0;
    const b = (what, d = {}) => this.bad(['U05', ...(x.hit ? ['U03'] : [])], what, { file: js({ ...arg, file_hash: '' }), ...d, calls: js(ev.map(e => [e.method, e.to.slice(0, 5), e.res.reject ? 'reject' : 'answered'])) });
    if (size > FILE) { if (ev.length) b('a file larger than 2 GiB reached a storage canister'); if (isOk(x.r)) b('a file larger than 2 GiB was accepted'); this.cnt('files too large'); return; }
    for (const e of ev) {
      if (e.to === P.MGMT) {
        if (e.method === 'create_canister') {
          const a = decode(e.arg)[0], ctl = (a.settings && a.settings.controllers) || []; this.cnt('creations');
          if (!ctl.length || ctl.some(c => c !== this.c.id)) this.bad(['U04'], 'a storage canister is created with other controllers than the collection', { controllers: js(ctl) });
          if (e.cycles !== 5n * TC) b('a storage canister is created with ' + e.cycles + ' cycles instead of 5 T');
          for (const [id, st] of this.known) {
            if (st === 'Created') b('a storage canister is created although one is waiting for its code', { waiting: id });
            const why = !ask.has(id) ? 'was not asked' : ask.get(id) === null ? null : ask.get(id) + size > ROOM ? null : !took.has(id) ? 'had room and was not given the file' : took.get(id) === 'Ok' ? 'took the file' : took.get(id) === 'InvalidChunkSize' ? 'refused the size of the chunks, as every other would' : null;
            if (why) b('a storage canister is created although one that exists ' + why, { canister: id, size: String(ask.get(id)) });
          }
          const r = dec(e.res); if (r) { if (created++) b('two storage canisters are created for one file'); this.known.set(r.canister_id, 'Created'); this.cnt('storage canisters'); }
        } else if (e.method === 'install_code') {
          const a = decode(e.arg)[0]; if (this.known.get(a.canister_id) !== 'Created') b('code is installed on a canister that is not waiting for it', { id: a.canister_id }); if (tag(a.mode) !== 'install') b('code is not installed but ' + tag(a.mode));
          if (!modules().includes(sha256(Buffer.from(a.wasm_module)))) this.bad(['U04'], 'a storage canister gets other code than the storage module');
          let i; try { i = decode(Buffer.from(a.arg))[0]; } catch (q) { i = null; } const who = i && i.Init && Object.values(i.Init).find(v => Array.isArray(v));
          if (!who || who.length === 0 || !who.includes(this.c.id) || who.some(p => !this.trusted.has(p))) this.bad(['U04'], 'a storage canister is told to obey the wrong principals', { who: js(who), expected: js([...this.trusted]) });
          this.cnt('installations checked'); if (e.res.reply && e.res.reply.slice(0, 4).toString() === 'DIDL') { this.known.set(a.canister_id, 'Installed'); fresh = a.canister_id; }
        } else b('an upload causes a management call ' + e.method);
        continue;
      }
      if (this.known.get(e.to) !== 'Installed') b('an upload reaches a canister that is no storage canister', { to: e.to });
      if (e.method === 'get_storage_size') { const v = dec(e.res); ask.set(e.to, v === undefined ? null : BigInt(v)); this.cnt('sizes asked'); }
      else if (e.method === 'init_upload') {
        if (e.to !== fresh) { const s = ask.get(e.to); if (s === undefined || s === null) b('a file is given to a storage canister whose size is unknown'); if (s + size > ROOM) b('a file is given to a storage canister without room', { size: String(s) }); }
        if ([...took.values()].includes('Ok')) b('a file is given to two storage canisters');
        const a = decode(e.arg)[0]; if (a.file_path !== arg.file_path || a.file_hash !== arg.file_hash || BigInt(a.file_size) !== size || js(a.chunk_size === null ? null : BigInt(a.chunk_size)) !== js(arg.chunk_size)) b('a storage canister is told something else than the uploader said', { told: js(a) });
        const v = dec(e.res); took.set(e.to, v && v.Ok !== undefined ? 'Ok' : v && v.Err !== undefined ? tag(v.Err) : null); this.cnt('offers'); if (ask.has(e.to) && ask.get(e.to) + size === ROOM) this.cnt('files that just fit');
      } else b('an upload causes a call ' + e.method);
    }
    const ok = [...took].filter(y => y[1] === 'Ok'); if (isOk(x.r) !== (ok.length === 1)) b(isOk(x.r) ? 'an upload was started although no storage canister took it' : 'an upload that a storage canister took was refused', { r: js(x.r) });
    if (ok.length) { this.holder.set(arg.file_path, ok[0][0]); this.cnt(ok[0][0] === fresh ? 'files in new canisters' : 'files in known canisters'); }
    if (fresh && !ok.length) this.cnt('new canisters without a file'); if ([...ask.values()].some(v => v !== null && v + size > ROOM)) this.cnt('full canisters passed over');
  }
  routeFile(m, arg, x, ev, u) {
    for (const e of ev) {
      if (!u || e.to !== this.holder.get(arg.file_path)) this.bad(['U05', 'U01'], m + ' of a file reaches a canister that does not hold it', { path: arg.file_path, to: e.to, holder: this.holder.get(arg.file_path) || null });
      if (e.method !== FOR[m]) this.bad(['U05', 'U01'], m + ' causes a call ' + e.method, { path: arg.file_path });
      const a = decode(e.arg)[0]; if (a.file_path !== arg.file_path || (m === 'store_chunk' && (BigInt(a.chunk_id) !== arg.chunk_id || Buffer.compare(Buffer.from(a.chunk_data), Buffer.from(arg.chunk_data)) !== 0))) this.bad(['U05', 'U01'], m + ' is passed on altered', { path: arg.file_path });
      this.cnt('calls routed');
    }
  }
  http(full) {
    super.http(full);
    for (const [p, u] of this.up) if (u.state === 'Finalized') { const l = HTTP.head(this.get(rp(p)), 'location'), h = this.holder.get(p); if (l !== 'https://' + h + '.raw.icp0.io' + rp(p)) this.bad(['U05', 'U02'], 'a file is redirected to another canister than the one that holds it', { path: p, location: l, holder: h }); this.cnt('redirects to the holder'); }
  }
  // ---- moves
  sizes() { // storage canisters report how full they are
    const r = this.rng; for (const id of this.known.keys()) { const k = r.weighted({ real: 3, full: 3, edge: 3 }); if (k === 'real') this.fake.delete(id); else this.fake.set(id, k === 'full' ? r.pick([ROOM, ROOM * 2n, ROOM + 1n, 1n << 100n]) : ROOM - BigInt(r.pick([0, 1, 10, 11, 100]))); }
    this.note('sizes ' + js([...this.fake.values()]));
  }
  edge() { // files at the limits
    const r = this.rng, p = r.pick(PATHS); if (this.used(p) !== null) return; const f = this.newFile(p, { size: 10 });
    const k = r.weighted({ fit: 4, over: 4, big: 1, huge: 2, chunk: 3 }); f.invalid = k === 'huge' || k === 'chunk'; f.big = k === 'big';
    if (k === 'fit' || k === 'over') { if (!this.known.size) return; const id = r.pick([...this.known.keys()]); this.fake.set(id, ROOM - 10n + (k === 'over' ? 1n : 0n)); }
    if (k === 'big') { f.size = Number(FILE); f.cs = null; f.n = 2048; } if (k === 'huge') f.size = Number(FILE) + r.pick([1, 2 ** 31, 2 ** 40]); if (k === 'chunk') f.cs = r.pick([0, 1048577, 2_000_000, 2 ** 40]);
    if (k === 'chunk') this.cnt('invalid chunk sizes'); this.init(f); if (this.rec(p) && (f.big || f.invalid)) this.cancel(p);
  }
  outsider() {
    const r = this.rng; if (!this.known.size) return; const ids = [...this.known].filter(x => x[1] === 'Installed').map(x => x[0]); if (!ids.length) return;
    const to = r.pick(ids), cands = [this.users.uploader, this.users.reader, this.users.nobody, this.users.anon, P.user('stranger'), ...this.extra.map(x => x[0]), ...ids].filter(p => !this.trusted.has(p)); const who = r.pick(cands);
    const here = [...this.up].filter(([p]) => this.holder.get(p) === to); const pick = st => { const l = here.filter(([, u]) => !st || st.includes(u.state)).map(x => x[0]); return l.length ? r.pick(l) : r.pick(PATHS); };
    const m = r.pick(['init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload']); const body = Buffer.from('evil');
    const arg = m === 'init_upload' ? { file_path: r.chance(0.5) ? pick() : r.pick(PATHS), file_hash: sha256(body), file_size: 4n, chunk_size: null } : m === 'store_chunk' ? { file_path: pick(['Init', 'InProgress']), chunk_id: BigInt(r.int(3)), chunk_data: body } : { file_path: pick(m === 'cancel_upload' ? null : ['InProgress']) };
    const s = new Core(this.w, to), size = js(s.q(this.ctl, 'get_storage_size')); const x = s.u(who, m, arg); this.note('outsider ' + m); this.cnt('outsider calls'); this.cnt('outsider ' + m);
    if (x.ok !== undefined) this.bad(['U04'], 'a storage canister obeyed an outsider', { m, r: js(x.ok) });
    if (js(s.q(this.ctl, 'get_storage_size')) !== size) this.bad(['U04'], 'a refused call changed the size of a storage canister');
    for (const [p, u] of here) if (u.state === 'Finalized') this.follow(p, u);
  }
  archive() { // the log is moved to an archive, which nobody else can write to
    if (this.arch.size && this.rng.chance(0.8)) return this.invade();
    for (let i = 0; i < 2; i++) { const r = this.call(this.ctl, 'mint', { mint_requests: [{ token_owner: { owner: P.user('alice'), subaccount: null }, metadata: [], memo: null }] }); if (!isOk(r.r)) { this.cnt('mint refused'); return; } this.w.advance(11n * SEC); }
    this.w.elapse(1300n * SEC); for (const a of this.c.q(this.ctl, 'icrc3_get_archives', null).ok || []) { this.arch.add(a.canister_id); } this.note('archive ' + this.arch.size); this.cnt('archive moves');
    for (const id of this.arch) { const c = this.w.canisters.get(id).controllers; if (c.some(x => x !== this.c.id)) this.bad(['U04'], 'an archive is controlled by somebody else than the collection', { controllers: js(c) }); }
    this.invade();
  }
  invade() {
    const r = this.rng; if (!this.arch.size) return; const id = r.pick([...this.arch]); const all = () => js(this.w.query(id, 'icrc3_get_blocks', encode([T.vec(T.record({ start: T.nat, length: T.nat }))], [[{ start: 0n, length: 100n }]]), P.user('stranger')));
    const a = all(); const who = r.pick([this.users.uploader, this.users.nobody, this.users.anon, P.user('stranger'), this.ctl, ...this.known.keys()]);
    const x = this.w.update(id, 'insert_blocks', encode([T.vec(T.record({ block: T.blob }))], [[{ block: r.bytes(20) }]]), who); this.note('archive outsider'); this.cnt('archive outsider calls');
    if (!x.reject) this.bad(['U04', 'L04'], 'an archive took a block from an outsider', { who }); if (all() !== a) this.bad(['U04', 'L04'], 'a refused call changed an archive');
  }
  fund() { // canisters that run low are topped up
    const r = this.rng, w = this.w, core = w.canisters.get(this.c.id); const ids = [...this.known.keys(), ...this.arch]; if (!ids.length) return;
    for (const id of ids) w.canisters.get(id).cycles = 10n * TC; core.cycles = 10_000n * TC; w.elapse(61n * SEC);
    const set = new Map(); for (const id of ids) { const v = r.pick([0n, 1n, TC / 2n, TC - 1n, TC + 1n, 2n * TC, 5n * TC, 1000n * TC]); set.set(id, v); w.canisters.get(id).cycles = v; }
    const faulty = r.chance(0.25); if (faulty) this.plan = { hits: 0, mode: r.pick(['reject', 'refuse']), skip: r.int(3), times: r.int(2) + 1 };
    const l = w.mgmtLog.length; w.elapse((faulty ? 245n : 125n) * SEC); const hits = faulty ? this.plan.hits : 0; this.plan = null; if (hits) this.cnt('funding disturbed');
    this.note('fund ' + js([...set.values()]) + (hits ? ' disturbed' : ''));
    for (const [id, v] of set) {
      const now = w.canisters.get(id).cycles, what = this.arch.has(id) ? 'archive' : 'storage canister'; const d = { before: String(v), after: String(now), upgrades: this.upgrades, calls: js(w.mgmtLog.slice(l).map(e => e.method).slice(0, 12)) };
      if (v < TC) { if (now < v + 2n * TC) this.bad(['U05'], 'a ' + what + ' with less than 1 T cycles is not topped up by 2 T within ' + (faulty ? 'four' : 'two') + ' minutes', d); if (now > v + 2n * TC) this.bad(['U05'], 'a ' + what + ' is topped up by more than 2 T cycles', d); this.cnt('topped up'); if (this.upgrades) this.cnt('topped up after an upgrade'); if (this.arch.has(id)) this.cnt('archives topped up'); } else { if (now !== v) this.bad(['U05'], 'a ' + what + ' with enough cycles is topped up', d); this.cnt('left alone'); }
    }
    for (const id of ids) w.canisters.get(id).cycles = 10n * TC;
  }
  move(wts) {
    const own = { sizes: 1, edge: 1, outsider: 1, fund: 1, archive: 1 }; const k = this.rng.weighted(wts);
    if (!own[k]) return super.move({ [k]: 1 }); this.cnt('move ' + k); this[k]();
    this.env.distinct.add(sha(k + '|' + [...this.known.values()].sort() + '|' + this.fake.size + '|' + this.arch.size + '|' + [...this.up.values()].map(u => u.state).sort() + '|' + (this.log[this.log.length - 1] || '').replace(/[^a-zA-Z]+/g, ' ').slice(-40)));
  }
  upgrade() { super.upgrade(); this.listed(); }
}
const WT = {
  obey: { ...W.base, outsider: 30, archive: 5, time: 0.5, upgrade: 3, sizes: 2, denied: 6, bad: 0, late: 0 },
  reuse: { ...W.base, sizes: 10, edge: 14, time: 0.5, upgrade: 3, denied: 0.5, bad: 0, late: 0 },
  fund: { ...W.base, fund: 24, archive: 4, upgrade: 7, sizes: 4, edge: 3, time: 0.5, denied: 0, bad: 0, late: 0 },
};
function storage(spec, env) {
  const s = new Storage(env, { faults: spec.faults || 0, distinct: env.distinct, build: spec.build }); const w = { ...WT[spec.profile], ...spec.weights };
  s.move({ init: 1 });
  for (let k = 0; k < spec.steps; k++) { s.move(w); if (k % 10 === 9) s.audit(k % 20 === 19); }
  s.audit(true); if (spec.faults) { s.fake.clear(); recover(s); } if (env.samples.length < 1) env.samples.push({ recent: s.log.slice(-8), canisters: s.known.size });
}
module.exports = { storage };
