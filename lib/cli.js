'use strict';
// The command-line tool: the real binary runs against the real canisters behind a model of the HTTPS interface.
const fs = require('fs'), os = require('os'), path = require('path'), crypto = require('crypto'), { spawn } = require('child_process');
const { World } = require('../sim/replica');
const { Core, PERMS } = require('../sim/core');
const { Gateway, identity } = require('../sim/gateway');
const { decode } = require('../sim/candid');
const P = require('../sim/principal');
const { Violation, js, tag, canonM, mapGet } = require('./util');
const HTTP = require('./http');
const sha256 = b => crypto.createHash('sha256').update(b).digest('hex');
const DAY = 86_400n * 1_000_000_000n;
const rp = p => (p.startsWith('/') ? p : '/' + p);
const NAMES = { Minting: ['minting', 'Minting', 'MINTING'], ManageAuthorities: ['manage_authorities', 'manage-authorities', 'ManageAuthorities'], UpdateMetadata: ['update_metadata', 'update-metadata', 'updatemetadata'], UpdateCollectionMetadata: ['update_collection_metadata', 'update-collection-metadata', 'UpdateCollectionMetadata'], ReadUploads: ['read_uploads', 'read-uploads', 'readUploads'], UpdateUploads: ['update_uploads', 'update-uploads', 'UPDATEUPLOADS'] };
const snake = p => p.replace(/(?!^)([A-Z])/g, '_$1').toLowerCase();
const WORDS = ['Legendary', 'blue', 'a b c', 'https://ex.io/a.png', 'http://x:80/y?z=1:2', '12', '0', '007', '-4', '18446744073709551615', '18446744073709551616', '-9223372036854775808', '-9223372036854775809', '1.5', '-0', '+3', '', ':', 'a:b', 'ü€𝄞', '"q"', "it's", '\\n', 'NaN', 'inf', '-Infinity', '1e400', '1e3', '.5', '5.', '0x10', ' 7 ', 'true', 'null', '{"a":1}', 'data:image/png;base64,AAAA==', 'icrc97:metadata', '10:30', 'ratio:16:9'];
const KEYS = ['image', 'description', 'rarity', 'power', 'url', 'key with space', 'ü', 'x', 'Level', 'external_url', 'MixedCase', '12', 'e\u0301', 'k'.repeat(90)];
const ODDKEYS = ['', ' ', ' lead', 'trail ', 'a  b', '-dash', '=', '"q"']; // only where the text is taken as it is

class Cli {
  constructor(env, spec) {
    this.env = env; this.rng = env.rng; this.n = env.counters; this.log = env.log = []; this.bin = env.file('cmdline', 'host');
    this.me = identity('me'); this.ctl = P.user('controller'); const r = this.rng;
    const mine = spec.profile === 'files' || r.chance(0.6) ? PERMS : PERMS.filter(() => r.chance(0.75));
    this.w = new World();
    this.c = Core.deploy(this.w, env.wasm('core_nft', 'prod'), this.ctl, { test_mode: false, supply_cap: r.chance(0.3) ? BigInt(r.range(1, 4)) : null, permissions: { user_permissions: [[this.ctl, PERMS], [this.me.principal, mine]] } });
    if (this.c.trap) throw new Violation(['X02'], 'the canister cannot be started', { trap: this.c.trap });
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), 'vf-cli-')); fs.writeFileSync(path.join(this.dir, 'id.pem'), this.me.pem);
    this.gw = new Gateway(this.w); this.served = new Map(); this.dirty = new Set(); this.fileNo = 0; this.big = r.chance(0.12); // large files make every message of the model slow
  }
  async open() { await this.gw.listen(); }
  async close() { await this.gw.close(); fs.rmSync(this.dir, { recursive: true, force: true }); }
  cnt(k, d = 1) { this.n[k] = (this.n[k] || 0) + d; }
  bad(tags, what, detail = {}) { throw new Violation(tags, what, { ...detail, recent: this.log.slice(-8) }); }
  seen(...p) { this.env.distinct.add(p.join('|')); }
  // Runs the tool. o: {input, plan, hook, killAt}. Returns {code, out, err, calls, killed}
  run(args, o = {}) {
    const start = this.gw.log.length; let count = 0, child = null, killed = false; const self = this;
    this.gw.plan = rec => { const k = count++; if (o.killAt === k) { killed = true; child.kill('SIGKILL'); } return o.plan ? o.plan(rec, k) : null; };
    this.gw.hook = o.hook || null; this.cnt('commands');
    const env = { PATH: '/usr/bin:/bin', HOME: this.dir, http_proxy: 'http://127.0.0.1:' + this.gw.port, no_proxy: '', RUST_BACKTRACE: '0' };
    return new Promise(res => {
      child = spawn(this.bin, ['-i', o.identity || 'id.pem', '-c', o.canister || this.c.id, ...args], { cwd: this.dir, env, stdio: ['pipe', 'pipe', 'pipe'] });
      let out = '', err = '', endless = false; const t = setTimeout(() => { endless = true; child.kill('SIGKILL'); }, o.timeout || 60000);
      child.stdout.on('data', d => { out += d; if (out.length > 4 << 20) { endless = true; child.kill('SIGKILL'); } });
      child.stderr.on('data', d => { err += d; }); child.stdin.on('error', () => {}); child.stdin.end(o.input || '');
      child.on('error', e => { clearTimeout(t); res({ code: -1, out, err: String(e), calls: [], failed: e }); });
      child.on('close', (code, sig) => {
        clearTimeout(t); self.gw.plan = null; self.gw.hook = null; World.beat && World.beat(); const calls = self.gw.log.slice(start);
        self.log.push(args.join(' ').slice(0, 300) + ' -> ' + (code === null ? sig : code) + ' ' + JSON.stringify(out.slice(0, 160)) + ' ' + err.slice(0, 160));
        res({ code, sig, out, err, calls, killed, endless });
      });
    });
  }
  judgeEnd(x, tags) { // what holds for every command
    if (x.failed) throw x.failed; if (this.gw.errors.length) throw new Error('gateway: ' + this.gw.errors[0]);
    if (x.endless) this.bad(tags, 'a command does not end', { args: this.log[this.log.length - 1] });
    for (const c of x.calls) if (c.wrong) this.bad(tags, 'a request is not signed by the identity given: ' + c.wrong);
    for (const c of x.calls) if (c.who && c.who !== this.me.principal) this.bad(tags, 'a request is made as somebody else', { who: c.who });
    for (const c of x.calls) if (c.canister && c.canister !== this.c.id) this.bad(tags, 'a request goes to another canister', { canister: c.canister });
    if (x.code === null && !x.killed) this.bad(tags, 'the tool was ended by ' + x.sig);
  }
  answers(x) { return x.calls.filter(c => c.method && c.r && (!c.fault || c.fault === 'slow' || c.fault === 'poll')).map(c => ({ method: c.method, v: c.r.reply ? decode(c.r.reply)[0] : null })); }
  transport(r, o = {}) { // a random transport fault at the k-th request
    if (!r.chance(o.p === undefined ? 0.35 : o.p)) return null;
    const at = r.int(o.span || 6), mode = r.pick(['http500', 'drop', 'lose', 'garble', 'reject', 'slow', 'poll', 'poll']); const pl = (rec, k) => { if (k !== at) return null; if (rec.kind === 'status' || rec.kind === 'read_state') { pl.hit = 'http500'; return 'http500'; } if (rec.kind === 'query' && !['http500', 'drop', 'reject'].includes(mode)) { pl.hit = 'forge'; return 'forge'; } pl.hit = mode; return mode; };
    return pl;
  }
  busy() { // another management call is pending while the command runs
    if (!this.rng.chance(0.1)) return null; const self = this.c.id; this.w.hold = x => (x.from === self && x.type === 'req') || (x.type === 'resp' && x.to === self);
    const p = '/busy/' + this.fileNo++, h = this.c.send(this.ctl, 'init_upload', { file_path: p, file_hash: sha256(p), file_size: 20n, chunk_size: 10n }); this.w.run(); this.cnt('commands while the collection is busy');
    return () => { this.w.hold = null; this.w.run(); if (!h.done) throw new Error('the pending call did not end'); };
  }
  harmless(pl) { return !pl || !pl.hit || pl.hit === 'slow' || pl.hit === 'poll'; }
  q(m, ...a) { const r = this.c.q(this.ctl, m, ...a); if (r.reject) this.bad(['X02'], m + ' failed: ' + r.reject[1]); return r.ok; }
  get(url) { // like a browser
    const m = /^https:\/\/([a-z0-9-]+)\.raw\.icp0\.io(\/.*)$/s.exec(url); if (!m) return { err: 'not an address of a file: ' + url }; if (m[1] !== this.c.id) return { err: 'the address names another canister: ' + url };
    const a = this.c.q(P.ANON, 'http_request', HTTP.req(m[2])); if (a.reject) return { err: 'rejected: ' + a.reject[1] }; const sc = Number(a.ok.status_code);
    if (sc === 200) return { body: Buffer.from(a.ok.body) }; if (sc !== 307) return { err: 'status ' + sc };
    return HTTP.fetchStorage(this.c, HTTP.head(a.ok, 'location'), P.ANON);
  }
  servedAt(p) { let u; try { u = new URL('https://' + this.c.id + '.raw.icp0.io' + rp(p)); } catch { return { err: 'no address' }; } return this.get(u.href); }
  raw(p) { return this.get('https://' + this.c.id + '.raw.icp0.io' + rp(p)); }
  auditServed() { for (const [p, b] of this.served) { const g = this.raw(p); if (g.err || Buffer.compare(g.body, b) !== 0) this.bad(['T01', 'U02'], 'a file uploaded before is no longer served', { path: p, err: g.err }); this.cnt('files still served'); } }
  perms(who) { const r = this.q('get_user_permissions', { principal: who }); return r && r.Ok ? [...new Set(r.Ok.map(tag))].sort() : []; } // the answer for nobody known is an error
  has(p) { return (this.perms(this.me.principal) || []).includes(p); }

  // ---- uploads
  async upload() {
    const r = this.rng; const meta = r.chance(0.25); let body, dest, name = 'f' + this.fileNo++ + r.pick(['.bin', '.json', ' x.png', '.ü']), cs, valid = true;
    if (meta) {
      const m = this.metadata(); body = Buffer.from(m.text); valid = m.valid; dest = '/' + sha256(body) + '.json'; if (r.chance(0.15) && this.lastMeta) { ({ body, dest } = this.lastMeta); valid = true; } if (valid) this.lastMeta = { body, dest };
    } else {
      const size = Number(r.weighted({ 0: 1, 1: 2, 7: 3, 100: 4, 1000: 4, 5000: 3, 70000: 2, ...(this.big ? { 1200000: 2, 2500000: 2 } : {}) })) + r.int(3); body = r.chance(0.15) ? Buffer.alloc(size, r.pick(['', '\n', 'ab'])) : size > 6000 ? Buffer.alloc(size, sha256(name + size)) : r.bytes(size); if (size > 3 && r.chance(0.1)) body.fill(r.pick([0, 10, 32]), r.int(size));
      dest = r.pick(['a.txt', '/a.txt', 'dir/b.png', 'c' + r.int(30) + '.jpg', '/d' + r.int(30), 'x/y/z', 'ü.json', 'a b.txt', 'q?x=1', 'h#1', '/logs', 'x/../e' + r.int(9), './f' + r.int(9), 'w\\v' + r.int(9), 'p%41' + r.int(9), '%2e%2e/g', 'tilde~', 'semi;colon', 'quote"s', '<t>', '{b}', '|p', "ap'os", 'plus+', 'at@', '//dd', 'e/', '/', 'ta\tb', 'caret^', 'back`tick', 'c:d', 'long/'.repeat(12) + 'z']);
    }
    const size = body.length; fs.writeFileSync(path.join(this.dir, name), body);
    const missing = r.chance(0.03); const csv = r.chance(0.45) ? null : r.pick([size, size + 1, Math.max(1, size - 1), Math.ceil(size / 2) || 1, Math.ceil(size / 3) || 1, Math.ceil(size / 7) || 1, 1048576, 2000000, ...(size < 25 ? [1] : []), ...(r.chance(0.15) ? [0, '18446744073709551615', '9223372036854775807', 'x', '-1'] : [])]); cs = csv;
    const n = csv === null ? Math.ceil(size / 1048576) : Number(csv) > 0 ? Math.ceil(size / Number(csv)) : 1; if (n > 40) return;
    let args = meta ? ['upload-metadata', missing ? 'missing.json' : name] : ['upload-file', missing ? 'missing' : name, dest]; if (csv !== null) args.push('--chunk_size=' + csv);
    const p = rp(dest), free = !this.served.has(p) && !this.dirty.has(p), plan = this.transport(r, { span: n + 5 }); let disturbed = false; const o = { plan };
    if (!plan && r.chance(0.12)) { o.killAt = r.int(n + 4); }
    if (r.chance(0.12)) { const at = r.int(n + 2); let k = 0; const what = r.pick(['revoke', 'storage', 'upgrade', 'other']); o.hook = () => { if (k++ !== at) return; this.disturb(what, p); disturbed = true; }; }
    const could = this.has('UpdateUploads'), free1 = o.hook ? null : this.busy(); const x = await this.run(args, o); if (free1) free1(); this.w.fault = null; this.judgeEnd(x, ['T01']);
    const url = /^URL: (.*)$/m.exec(x.out), said = /successfully/.test(x.out) || !!url; const detail = { dest, size, cs, code: x.code, out: x.out.slice(0, 300), err: x.err.slice(0, 300), fault: plan && plan.hit };
    if (x.code === 0) {
      if (!url) this.bad(['T01'], 'an upload ends well without an address', detail); const g = this.get(url[1].trim());
      if (g.err) this.bad(['T01'], 'an upload ended well but nothing is served at the address printed: ' + g.err, { ...detail, url: url[1] });
      if (Buffer.compare(g.body, body) !== 0) this.bad(['T01'], 'an upload ended well but other content is served at the address printed', { ...detail, got: g.body.length });
      if (meta && !url[1].trim().endsWith(dest)) this.bad(['T01'], 'metadata is served at another address than its hash', { ...detail, url: url[1] });
      if (meta && !valid) this.bad(['T01', 'T03'], 'invalid metadata was uploaded', detail);
      const s = this.raw(p); if (s.err || Buffer.compare(s.body, body) !== 0) this.bad(['T01'], 'an upload ended well but its destination is not served: ' + (s.err || 'other content'), detail);
      this.served.set(p, body); this.dirty.delete(p); this.cnt('uploads served'); this.seen('up', meta, n > 1 ? 'many' : n, csv === null ? 'default' : size % Number(csv) === 0 ? 'even' : 'odd', plan && plan.hit, disturbed, dest.length < 9 ? dest.replace(/\d+/, 'N') : '');
    } else {
      if (said) this.bad(['T01'], 'a failed upload reports success', detail);
      if (!x.killed && !x.err.trim()) this.bad(['T01'], 'an upload fails without saying why', detail);
      this.cnt('uploads failed'); this.seen('failed', meta, valid, could, free, csv === 0, plan && plan.hit, x.killed, disturbed);
      const must = !free1 && free && could && valid && !missing && this.harmless(plan) && !x.killed && !disturbed && size > 0 && Number(csv === null ? 1 : csv) > 0 && Number(csv === null ? 1 : csv) <= 1048576 && this.ordinary(dest);
      if (must) this.bad(['T01'], 'an upload of a valid file to a free path fails', detail);
      const own = ['/logs', '/traces', '/metrics'].includes(p.replace(/[?#].*$/, '')), g = own ? { err: 'a page of the collection' } : this.raw(p); if (!this.served.has(p) && !g.err && Number.isInteger(g.body.length)) { if (Buffer.compare(g.body, body) !== 0) this.bad(['T01'], 'a failed upload left other content behind', detail); if (plan && plan.hit || x.killed || disturbed) { this.served.set(p, body); this.cnt('served although the answer was lost'); } else this.bad(['T01'], 'an upload is reported as failed although its file is served', detail); }
      if (!this.served.has(p) && x.calls.some(c => c.method)) this.dirty.add(p);
    }
    if (x.calls.filter(c => c.method).some(c => !['init_upload', 'store_chunk', 'finalize_upload'].includes(c.method))) this.bad(['T01'], 'an upload calls ' + js(x.calls.map(c => c.method)));
    if (!valid && x.calls.some(c => c.method)) this.bad(['T03'], 'invalid metadata reached the canister', detail);
    if (x.calls.filter(c => c.method === 'store_chunk').length > 1) this.cnt('uploads in several chunks');
    if (r.chance(0.3)) this.auditServed();
  }
  ordinary(dest) { return /^\/?[\w~-][\w.~-]*(\/[\w.~-]+)*$/.test(dest) && !/(^|\/)\.\.?(\/|$)/.test(dest) && !['logs', 'metrics', 'traces'].includes(dest.replace(/^\//, '')); }
  disturb(what, p) {
    this.cnt('disturbed by ' + what);
    if (what === 'revoke') this.c.u(this.ctl, 'revoke_permission', { principal: this.me.principal, permission: { UpdateUploads: null } });
    if (what === 'upgrade') this.c.upgradeTo(this.env.wasm('core_nft', 'prod'), this.ctl);
    if (what === 'storage') { let left = 1; this.w.fault = m => (m.from === this.c.id && left-- > 0 ? this.rng.pick([{ reject: [2, 'injected: unavailable'] }, { lose: [5, 'injected: answer lost'] }]) : null); }
    if (what === 'other') { const b = this.rng.bytes(20); const r = this.c.u(this.ctl, 'init_upload', { file_path: p, file_hash: sha256(b), file_size: 20n, chunk_size: 10n }); if (r.ok && r.ok.Ok !== undefined) this.dirty.add(p); }
  }
  restore() { // give permissions back from time to time, let the clean-up run
    const r = this.rng; const k = r.weighted({ grant: 4, gc: 2, take: 1 });
    if (k === 'grant') { const p = r.pick(PERMS); this.c.u(this.ctl, 'grant_permission', { principal: this.me.principal, permission: { UpdateUploads: null } }); this.c.u(this.ctl, 'grant_permission', { principal: this.me.principal, permission: { [p]: null } }); }
    else if (k === 'take') this.c.u(this.ctl, 'revoke_permission', { principal: this.me.principal, permission: { [r.pick(PERMS)]: null } });
    else { for (let i = 0; i < 3; i++) { this.w.advance(DAY); this.w.elapse(60n * 1_000_000_000n); } this.dirty.clear(); this.cnt('clean-ups'); }
  }
  // ---- minting
  value(t) { if (/^\+?\d+$/.test(t) && BigInt(t.replace('+', '')) < 2n ** 64n) return { Nat: BigInt(t.replace('+', '')) }; if (/^-\d+$/.test(t) && BigInt(t) >= -(2n ** 63n)) return { Int: BigInt(t) }; return { Text: t }; }
  async mint() {
    const r = this.rng, args = ['mint']; let valid = true, expect = [], input = '', sub = null;
    const owner = r.chance(0.06) ? r.pick(['aaaaa', 'not a principal', '']) : r.pick([P.user('o1'), P.user('o2'), this.me.principal, P.canister(77)]); if (r.chance(0.03)) { /* keep */ } if (!/^[a-z0-9-]{20,}$/.test(owner)) valid = false;
    args.push('--owner=' + owner, '--name=' + r.pick(['N', 'My NFT', 'ü']));
    if (r.chance(0.4)) { const b = r.bytes(r.chance(0.85) ? 32 : r.pick([31, 33, 0, 1])); if (r.chance(0.1)) b.fill(0); let h = b.toString('hex'); if (r.chance(0.3)) h = h.toUpperCase(); if (r.chance(0.06)) { h = h.slice(1) + 'z'; } if (!/^[0-9a-fA-F]{64}$/.test(h)) valid = false; else sub = Buffer.from(h, 'hex'); args.push('--subaccount=' + h); }
    const memo = r.chance(0.5) ? r.pick(['First NFT', 'm', 'ü€', 'x'.repeat(32), 'x'.repeat(33), ' spaced ', 'a:b']) : null; if (memo !== null) args.push('--memo=' + memo);
    const kind = r.weighted({ entries: 6, url: 2, interactive: 2, none: 1 });
    if (kind === 'url') { const u = r.pick(['https://x.raw.icp0.io/abc.json', 'http://a:80/b', 'ipfs://q', 'plain', 'ü']); args.push('--icrc97_url=' + u); expect = [['icrc97:metadata', { Array: [{ Text: u }] }]]; }
    else if (kind === 'entries') { const k = r.range(1, 4); for (let i = 0; i < k; i++) { const key = r.pick(r.chance(0.12) ? ODDKEYS : KEYS), v = r.pick(WORDS), noColon = r.chance(0.05), e = noColon ? key : key + ':' + v; if (!e.includes(':')) valid = false; else expect.push([key, this.value(v)]); args.push('--metadata=' + e); } }
    else if (kind === 'interactive') { args.push('--interactive'); const t = this.mintScript(); input = t.input; if (t.expect === null) valid = false; else expect = t.expect; }
    const before = this.q('icrc7_total_supply'), could = this.has('Minting'), plan = this.transport(r, { p: 0.3, span: 4 });
    const release = this.busy(); const x = await this.run(args, { plan, input, timeout: 30000 }); if (release) release(); this.judgeEnd(x, ['T02']); const after = this.q('icrc7_total_supply');
    const detail = { args, input, code: x.code, out: x.out.slice(-300), err: x.err.slice(0, 300), fault: plan && plan.hit }; const id = /minted successfully with ID: ([\d_]+)/.exec(x.out);
    const calls = x.calls.filter(c => c.method); if (calls.some(c => c.method !== 'mint') || new Set(calls.map(c => c.id)).size > 1) this.bad(['T02'], 'a mint command calls ' + js(calls.map(c => c.method)), detail);
    if (after - before > 1n) this.bad(['T02'], 'one mint command made several tokens', detail);
    if (!valid) { if (x.code === 0) this.bad(['T02'], 'a mint command with invalid options succeeds', detail); if (after !== before) this.bad(['T02'], 'a mint command with invalid options minted a token', detail); this.cnt('invalid mint commands'); }
    const check = tok => {
      const o = this.q('icrc7_owner_of', [tok])[0]; const so = o && o.subaccount ? Buffer.from(o.subaccount) : Buffer.alloc(32); if (!o || o.owner !== owner || Buffer.compare(so, sub || Buffer.alloc(32)) !== 0) this.bad(['T02'], 'the token belongs to another account than the options say', { ...detail, owner: js(o) });
      const m = this.q('icrc7_token_metadata', [tok])[0]; if (!m || canonM(m) !== canonM(expect)) this.bad(['T02'], 'the metadata of the token is not what the options say', { ...detail, got: js(m), want: js(expect) });
      const b = this.q('icrc3_get_blocks', [{ start: 0n, length: 1000n }]).blocks, mine = b.map(z => mapGet(z.block.Map, 'tx')).filter(t => t && mapGet(t.Map, 'tid') && mapGet(t.Map, 'tid').Nat === tok); const mm = mine.length ? mapGet(mine[mine.length - 1].Map, 'memo') : null;
      if (mine.length) { const got = mm ? Buffer.from(mm.Blob).toString() : null; if (got !== memo) this.bad(['T02'], 'the memo of the mint is not the one given', { ...detail, got }); this.cnt('memos compared'); }
    };
    if (x.code === 0) {
      if (!id) this.bad(['T02'], 'a mint command ends well without an id', detail); const tok = BigInt(id[1].replace(/_/g, '')); if (after !== before + 1n) this.bad(['T02'], 'a mint command ends well but the supply is ' + after + ' after ' + before, detail);
      check(tok); this.cnt('tokens minted by the tool'); this.seen('mint', kind, memo === null, sub === null, plan && plan.hit, expect.map(e => tag(e[1])).sort().join());
    } else {
      if (id) this.bad(['T02'], 'a failed mint command reports success', detail); if (!x.err.trim()) this.bad(['T02'], 'a mint command fails without saying why', detail);
      if (this.harmless(plan)) { if (after !== before) this.bad(['T02'], 'a mint command reported as failed minted a token', detail); const a = this.answers(x); if (valid && !a.length) this.bad(['T02'], 'a valid mint command fails before it reaches the collection', detail); if (a.some(y => y.v && y.v.Ok !== undefined)) this.bad(['T02'], 'a mint command fails although the collection accepted it', detail); if (could === false) this.cnt('mint refused without the permission'); }
      this.cnt('mint commands failed'); this.seen('mint failed', kind, valid, could, plan && plan.hit);
    }
  }
  mintScript() { // answers for the prompts of the interactive mode; expect null when the input is invalid
    const r = this.rng, l = [], expect = []; let ok = true; const bool = last => { if (r.chance(0.1)) l.push(r.pick(['maybe', '', '1'])); l.push(last ? r.pick(['n', 'no', 'N']) : r.pick(['y', 'yes', 'Y'])); };
    const n = r.range(0, 3); if (!n) l.push('');
    for (let i = 0; i < n && ok; i++) {
      const key = r.pick(KEYS); l.push(key); const k = r.pick(['1', '2', '3', '4', '1', '9']); l.push(k);
      if (k === '1' || k === '9') { const v = r.pick(WORDS); l.push(v); expect.push([key, { Text: v.trim() }]); }
      if (k === '2') { const v = r.pick(['0', '5', '18446744073709551615', 'x', '-1', '1.5']); l.push(v); if (/^\d+$/.test(v)) expect.push([key, { Nat: BigInt(v) }]); else ok = false; }
      if (k === '3') { const v = r.pick(['0', '-5', '-9223372036854775808', 'x']); l.push(v); if (/^-?\d+$/.test(v)) expect.push([key, { Int: BigInt(v) }]); else ok = false; }
      if (k === '4') { const b = r.bytes(r.int(9)), v = r.chance(0.85) ? b.toString('base64') : '***'; l.push(v); if (v !== '***') expect.push([key, { Blob: b }]); else ok = false; }
      if (ok) bool(i === n - 1);
    }
    return { input: l.map(s => s + '\n').join(''), expect: ok ? expect : null };
  }
  // ---- permissions
  async permissions() {
    const r = this.rng, verb = r.pick(['grant', 'revoke', 'list', 'has']), perm = r.pick(PERMS), wrongPerm = r.chance(0.08), name = wrongPerm ? r.pick(['mint', 'all', '', 'Admin', 'read uploads', 'updatecollection_metadata']) : r.pick(NAMES[perm]);
    const who = r.chance(0.05) ? 'nobody' : r.pick([P.user('g1'), P.user('g2'), P.user('g3'), this.me.principal]); const valid = who !== 'nobody' && (verb === 'list' || !wrongPerm);
    const args = ['permissions', verb, '--principal=' + who]; if (verb !== 'list') args.push('--permission=' + name);
    const all = [P.user('g1'), P.user('g2'), P.user('g3'), this.me.principal, this.ctl], before = new Map(all.map(p => [p, this.perms(p)])), plan = this.transport(r, { p: 0.25, span: 4 });
    const release = this.busy(); const x = await this.run(args, { plan }); if (release) release(); this.judgeEnd(x, ['T02']); const after = new Map(all.map(p => [p, this.perms(p)])); const a = this.answers(x).filter(y => y.method), ok = a.length && a.every(y => y.v && y.v.Ok !== undefined);
    const detail = { args, code: x.code, out: x.out.slice(0, 400), err: x.err.slice(0, 300), fault: plan && plan.hit, before: js([...before]), after: js([...after]) };
    const want = verb === 'grant' ? 'grant_permission' : verb === 'revoke' ? 'revoke_permission' : verb === 'list' ? 'get_user_permissions' : 'has_permission'; const calls = x.calls.filter(c => c.method); if (new Set(calls.map(c => c.id)).size > 1 || calls.some(c => c.method !== want)) this.bad(['T02'], 'permissions ' + verb + ' calls ' + js(calls.map(c => c.method)), detail);
    if (!valid) { if (x.code === 0 || calls.length) this.bad(['T02'], 'a permissions command with invalid options is carried out', detail); }
    else if (this.harmless(plan)) { if (!calls.length) this.bad(['T02'], 'a permissions command does nothing', detail); if ((x.code === 0) !== ok) this.bad(['T02'], ok ? 'a permissions command fails although the collection accepted it' : 'a permissions command ends well although the collection refused it', detail); }
    const eq = (p, q) => js(p) === js(q);
    for (const p of all) {
      const b = before.get(p), now = after.get(p); let exp = b;
      if (valid && p === who && (verb === 'grant' || verb === 'revoke')) { exp = verb === 'grant' ? [...new Set([...b, perm])].sort() : b.filter(z => z !== perm); if (x.code !== 0 && !eq(now, b) && !(eq(now, exp) && !this.harmless(plan))) this.bad(['T02'], 'a failed permissions command changed permissions', detail); if (x.code === 0 && !eq(now, exp)) this.bad(['T02'], 'after permissions ' + verb + ' the permissions are not what was asked for', detail); }
      else if (!eq(now, b)) this.bad(['T02'], 'a permissions command changed permissions it does not name', detail);
    }
    if (x.code === 0 && verb === 'list') { const got = [...new Set([...x.out.matchAll(/^- (.*)$/mg)].map(m => m[1]))].sort(), exp = before.get(who).map(snake).sort(); if (!eq(got, exp) || (!exp.length && !/No permissions/.test(x.out))) this.bad(['T02'], 'permissions list prints other permissions than there are', detail); this.cnt('lists compared'); }
    if (x.code === 0 && verb === 'has') { const exp = String(before.get(who).includes(perm)); if (x.out.trim() !== exp) this.bad(['T02'], 'permissions has prints ' + x.out.trim() + ' instead of ' + exp, detail); this.cnt('has compared'); }
    this.cnt('permissions ' + verb + (x.code === 0 ? ' done' : ' failed')); this.seen('perm', verb, perm, x.code === 0, valid, plan && plan.hit, eq(before.get(who) || 0, after.get(who) || 0));
  }
  // ---- metadata files
  metadata() { // a metadata file and whether it is valid
    const r = this.rng, any = d => { switch (r.int(d > 2 ? 6 : 8)) { case 0: return null; case 1: return r.chance(0.5); case 2: return r.int(1000); case 3: return -1.5; case 4: case 5: return r.pick(WORDS); case 6: return Array.from({ length: r.int(3) }, () => any(d + 1)); default: return { [r.pick(KEYS)]: any(d + 1) }; } };
    let v = {}; const wrong = r.weighted({ none: 6, field: 2, attrs: 2, shape: 1, json: 1 });
    for (const k of ['name', 'description', 'image', 'external_url']) if (r.chance(0.7)) v[k] = r.pick(WORDS); if (r.chance(0.2)) v[r.pick(['extra', 'Name', 'attribute'])] = any(0);
    if (r.chance(0.7)) v.attributes = Array.from({ length: r.int(4) }, () => { const a = { trait_type: r.pick(KEYS), value: any(1) }; if (r.chance(0.3)) a.display_type = r.pick(['number', 'date', 'x']); return a; });
    if (wrong === 'field') v[r.pick(['name', 'description', 'image', 'external_url'])] = r.pick([1, null, [], {}, true, ['a']]);
    if (wrong === 'attrs') { const good = () => ({ trait_type: 'x', value: 1 }); const badA = r.pick([5, 'x', null, [], { value: 1 }, { trait_type: 'a' }, { trait_type: 1, value: 1 }, { trait_type: null, value: 1 }, { trait_type: 'a', value: 1, display_type: 1 }, { trait_type: 'a', value: 1, display_type: null }, { Trait_type: 'a', value: 2 }]); v.attributes = r.chance(0.2) ? r.pick([{}, 'x', 1, null]) : r.shuffle([badA, ...Array.from({ length: r.int(4) }, good)]); }
    if (wrong === 'shape') v = r.pick([[], 'x', 1, null, true, [{ name: 'x' }]]);
    let text = r.chance(0.5) ? JSON.stringify(v) : JSON.stringify(v, null, 2); if (r.chance(0.1)) text = ' \n' + text + '\n'; if (wrong === 'json') text = r.pick([text.slice(0, -1), text + 'x', '', '{', '{"name": "a",}', "{'name': 'a'}", text + text]);
    return { text, valid: this.validText(text) };
  }
  validText(t) {
    let v; try { v = JSON.parse(t); } catch { return false; } const obj = x => typeof x === 'object' && x !== null && !Array.isArray(x), has = (o, k) => Object.prototype.hasOwnProperty.call(o, k); if (!obj(v)) return false;
    for (const k of ['name', 'description', 'image', 'external_url']) if (has(v, k) && typeof v[k] !== 'string') return false;
    if (has(v, 'attributes')) { if (!Array.isArray(v.attributes)) return false; for (const a of v.attributes) { if (!obj(a) || typeof a.trait_type !== 'string' || !has(a, 'value') || (has(a, 'display_type') && typeof a.display_type !== 'string')) return false; } }
    return true;
  }
  async validate() {
    const m = this.metadata(), f = 'v' + this.fileNo++ + '.json', missing = this.rng.chance(0.04); fs.writeFileSync(path.join(this.dir, f), m.text); const x = await this.run(['validate-metadata', missing ? 'gone.json' : f]); this.judgeEnd(x, ['T03']);
    const ok = m.valid && !missing, detail = { text: m.text, code: x.code, out: x.out.slice(0, 300), err: x.err.slice(0, 300) }; if ((x.code === 0) !== ok || /successful/.test(x.out) !== ok) this.bad(['T03'], ok ? 'valid metadata is refused' : 'invalid metadata is accepted', detail);
    if (x.calls.some(c => c.method)) this.bad(['T03'], 'validating calls the collection', detail); if (fs.readFileSync(path.join(this.dir, f), 'utf8') !== m.text) this.bad(['T03'], 'validating changes the file', detail);
    this.cnt('metadata validated: ' + ok); this.seen('validate', ok, x.err.replace(/\d+/g, 'N').slice(0, 60));
  }
  number(t) { if (/^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$/.test(t)) { const x = Number(t); if (Number.isFinite(x)) return x; } return t; }
  async create() {
    const r = this.rng, f = 'm' + this.fileNo++ + '.json', full = path.join(this.dir, f), args = ['create-metadata', '--output=' + f]; let expect = {}, valid = true, input = '', open = false;
    const interactive = r.chance(0.4);
    if (interactive) { if (r.chance(0.6)) args.push('--interactive'); const t = this.createScript(); input = t.input; expect = t.expect; valid = expect !== null; open = t.open; }
    else {
      const name = r.chance(0.95) ? r.pick(WORDS) : null, description = r.chance(0.95) ? r.pick(WORDS) : null; if (name === null && description === null) return; if (name !== null) args.push('--name=' + name); if (description !== null) args.push('--description=' + description); if (name === null || description === null) valid = false;
      expect = { name, description }; for (const k of ['image', 'external_url']) if (r.chance(0.5)) { const v = r.pick(WORDS); args.push('--' + k + '=' + v); expect[k] = v; }
      const attrs = []; for (let i = r.int(4); i > 0; i--) {
        const parts = [r.pick(r.chance(0.12) ? ODDKEYS : KEYS), r.pick(WORDS.filter(w => !w.includes(':')))]; if (r.chance(0.4)) parts.push(r.pick(['number', 'date', 'boost_number', '', 'custom', 'MyType', ' t ', 'Ünit'])); const odd = r.chance(0.06); if (odd) { if (r.chance(0.5)) parts.length = 1; else { while (parts.length < 3) parts.push('x'); parts.push('extra'); } valid = false; }
        args.push('--attribute=' + parts.join(':')); const a = { trait_type: parts[0], value: this.number(parts[1] || '') }; if (parts.length > 2) a.display_type = parts[2]; attrs.push(a);
      }
      if (attrs.length) expect.attributes = attrs;
    }
    const x = await this.run(args, { input, timeout: 15000 }); this.judgeEnd(x, ['T03']); const detail = { args, input, code: x.code, out: x.out.slice(-500), err: x.err.slice(0, 300), expect }; const there = fs.existsSync(full);
    if (x.calls.some(c => c.method)) this.bad(['T03'], 'creating metadata calls the collection', detail);
    if (open) { this.cnt('creations with the input cut'); if (x.code === 0 && there && !this.validText(fs.readFileSync(full, 'utf8'))) this.bad(['T03'], 'invalid metadata was written', detail); }
    else if (!valid) { if (x.code === 0) this.bad(['T03'], 'create-metadata ends well although an option is incomplete or malformed', { ...detail, wrote: there && fs.readFileSync(full, 'utf8') }); if (there) this.bad(['T03'], 'a failed create-metadata wrote a file', detail); this.cnt('creations refused'); }
    else {
      if (x.code !== 0) this.bad(['T03'], 'create-metadata fails for valid options', detail); const t = fs.readFileSync(full, 'utf8'); let v; try { v = JSON.parse(t); } catch { this.bad(['T03'], 'create-metadata writes no JSON', { ...detail, t }); }
      const sort = o => (Array.isArray(o) ? o.map(sort) : o && typeof o === 'object' ? Object.fromEntries(Object.keys(o).sort().map(k => [k, sort(o[k])])) : o); if (JSON.stringify(sort(v)) !== JSON.stringify(sort(expect))) this.bad(['T03'], 'the metadata written is not what was asked for', { ...detail, got: v }); this.cnt('metadata created');
      const y = await this.run(['validate-metadata', f]); if (y.code !== 0) this.bad(['T03'], 'created metadata does not validate', { ...detail, err2: y.err });
    }
    this.seen('create', interactive, valid, open, (expect && expect.attributes || []).map(a => typeof a.value + (a.display_type === undefined ? '' : 'd')).join());
  }
  createScript() {
    const r = this.rng, l = []; const bool = yes => { if (r.chance(0.1)) l.push(r.pick(['maybe', '', '1'])); l.push(yes ? r.pick(['y', 'yes', 'Yes']) : r.pick(['n', 'No'])); };
    const w = () => r.pick(WORDS).trim(); const name = w(), description = w(); l.push(name); if (!name) return { input: l.join('\n') + '\n', expect: null }; l.push(description); if (!description) return { input: l.join('\n') + '\n', expect: null };
    const e = { name, description }; for (const k of ['image', 'external_url']) { const v = r.chance(0.5) ? w() : ''; l.push(v); if (v) e[k] = v; }
    const n = r.int(4); bool(n > 0); const attrs = [];
    for (let i = 0; i < n; i++) {
      if (i > 0 && r.chance(0.1)) { l.push(''); break; } const t = r.pick(KEYS), v = w(); l.push(t, v); const num = this.number(v), a = { trait_type: t, value: num };
      if (typeof num === 'number') { if (r.chance(0.15)) l.push(r.pick(['7', 'x'])); const k = r.pick(['1', '2', '3', '4', '5', '']); l.push(k); const d = { 1: 'number', 2: 'boost_number', 3: 'boost_percentage', 4: 'date' }[k]; if (d) a.display_type = d; }
      else { if (r.chance(0.15)) l.push('9'); const k = r.pick(['1', '2', '']); l.push(k); if (k === '2') { const d = r.pick(['custom', '', 'MyType', 'two words', 'ÜNIT', 'x-y']); l.push(d); if (d) a.display_type = d; } }
      attrs.push(a); bool(i < n - 1);
    }
    if (attrs.length) e.attributes = attrs; let input = l.map(s => s + '\n').join(''), open = false; if (r.chance(0.12)) { input = l.slice(0, r.int(l.length)).map(s => s + '\n').join(''); open = true; } return { input, expect: e, open };
  }
}
const MOVES = { upload: { upload: 10, restore: 2 }, mint: { mint: 8, permissions: 5, restore: 1 }, files: { validate: 5, create: 6, upload: 1 } };
async function cli(spec, env) {
  const s = new Cli(env, spec); await s.open();
  try { for (let k = 0; k < spec.steps; k++) await s[s.rng.weighted(MOVES[spec.profile])](); s.auditServed(); if (env.samples.length < 2) env.samples.push({ last: s.log.slice(-3) }); } finally { await s.close(); }
}
module.exports = { cli };
