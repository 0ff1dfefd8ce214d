'use strict';
// Typed fuzzing of every method (X02) and the consent message oracle (X04).
const { Core, types, T, encode, decode, Args, initArgs, plain, PERMS } = require('../sim/core');
const { World, loadModule } = require('../sim/replica');
const { IndexType, GetArgs, InitArg } = require('./index');
const P = require('../sim/principal');
const { Violation, js, tag } = require('./util');
const SEC = 1000000000n, MS = 1000000n;
const NATS = [0n, 1n, 2n, 3n, 4n, 5n, 7n, 10n, 25n, 100n, 1000n, 2n ** 31n, 2n ** 32n - 1n, 2n ** 32n, 2n ** 53n, 2n ** 63n - 1n, 2n ** 63n, 2n ** 64n - 2n, 2n ** 64n - 1n, 2n ** 64n, 2n ** 64n + 1n, 2n ** 65n + 3n, 2n ** 127n, 2n ** 128n - 1n, 2n ** 128n, 2n ** 256n + 5n, 10n ** 90n];
const TEXTS = ['', ' ', 'a', 'name', '/', '//', '/a.png', 'a.png', '/up/1.bin', 'up/2.bin', '/a/../b', '/ü/字.png', '\u0000', '\u{1F600}', 'x'.repeat(300), 'y'.repeat(5000), '%', '%zz', '%2e%2e/', '/metrics', '/logs', '/trace', 'http://[::1', 'https://example.org/l.png', 'icrc7:new_metadata', 'GET', 'POST', '?', '/?a=b', '/a.png?x=1#y', '\\', '/.well-known/ic-domains'];
const HASHES = ['', 'zz', '00', 'e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855', 'A'.repeat(64), 'f'.repeat(65)];
const deref = t => { while (t.k === 'rec') t = t.get(); return t; };
// methods answered with guards (a permission) or bounded by a configured limit
const GUARDED = new Set(['update_collection_metadata', 'mint', 'update_nft_metadata', 'init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload', 'grant_permission', 'revoke_permission', 'get_user_permissions', 'has_permission', 'get_all_uploads', 'get_upload_status', 'get_all_storage_subcanisters']);
const QUERY_ONLY = new Set(['http_request', 'icrc3_get_tip_certificate']);

class Values {
  constructor(rng, o) { this.rng = rng; this.o = o; }
  nat(name) {
    const r = this.rng, o = this.o;
    if (/token_id|^id$/.test(name) && r.chance(0.75)) return BigInt(r.range(0, o.tokens() + 2));
    if (/take|length|start|chunk_id|batch|size|cap|limit|max/.test(name) && r.chance(0.6)) return BigInt(r.int(12));
    return r.chance(0.8) ? r.pick(NATS) : BigInt('0x' + r.bytes(r.range(1, 40)).toString('hex'));
  }
  n64(name) {
    const r = this.rng, now = this.o.now();
    if (/created_at|expires/.test(name) && r.chance(0.75)) return BigInt.asUintN(64, now + r.pick([0n, 0n, 1n, -1n, SEC, -SEC, 119n * SEC, -119n * SEC, 121n * SEC, 3600n * SEC, -90000n * SEC, 10n ** 18n]));
    if (/size/.test(name) && r.chance(0.7)) return BigInt(r.pick([0, 1, 2, 5, 100, 1000, 1048576, 2000000]));
    return r.pick([0n, 1n, 2n, now, 2n ** 32n, 2n ** 63n - 1n, 2n ** 63n, 2n ** 64n - 2n, 2n ** 64n - 1n]);
  }
  text(name, root) {
    const r = this.rng;
    if (/file_path/.test(name) && r.chance(0.7)) return r.pick(['/up/1.bin', 'up/2.bin', '/a.png', '/é.bin', '/c d']);
    if (/hash/.test(name) && r.chance(0.8)) return r.pick(HASHES);
    if (/^method$/.test(name) && root === 'http_request') return r.pick(['GET', 'GET', 'GET', 'get', 'HEAD', 'POST', 'OPTIONS', 'PATCH', 'M-SEARCH', 'Q'.repeat(100)]); // HTTP methods are tokens (RFC 9110)
    if (/url/.test(name) && r.chance(0.8)) return r.pick(['/', '/metrics', '/logs', '/trace', '/up/1.bin', '/a.png', '', '?', '/%', '/%zz?', '/%C3%A9.bin', 'metrics', '//metrics', '/metrics/', '/metrics?x', '/logs?since=5', '/logs?', '/logs?since=-1', '/trace?since=99999999999999999999999', 'http://x/y', '/a b', '/\u{1F600}', '/' + 'q'.repeat(4000)]);
    return r.chance(0.85) ? r.pick(TEXTS) : r.bytes(r.int(40)).toString('latin1');
  }
  blob(name) {
    const r = this.rng;
    if (/subaccount/.test(name)) return r.chance(0.85) ? r.pick([Buffer.alloc(32), Buffer.alloc(32, 1), Buffer.alloc(32, 255)]) : r.bytes(32);
    return r.bytes(r.pick([0, 1, 2, 31, 32, 33, 64, 100, 1000, r.chance(0.1) ? 100000 : 5]));
  }
  principal(name, root) {
    const r = this.rng;
    for (;;) {
      const p = r.chance(0.7) ? r.pick(this.o.users) : r.pick([P.ANON, P.MGMT, this.o.self, P.fromBytes(r.bytes(r.range(0, 29))), P.fromBytes(Buffer.alloc(29, 255)), P.fromBytes(Buffer.from([0]))]);
      if (root !== 'revoke_permission' || p !== this.o.ctl) return p;
    }
  }
  make(t, name, root, depth = 0) {
    t = deref(t); const r = this.rng;
    switch (t.k) {
      case 'null': case 'reserved': return null;
      case 'bool': return r.chance(0.5);
      case 'nat': return this.nat(name);
      case 'int': return this.nat(name) * (r.chance(0.5) ? -1n : 1n);
      case 'nat8': return r.int(256); case 'nat16': return r.pick([0, 1, 2, 65535]); case 'int16': return r.pick([0, 60, -60, 32767, -32768]); case 'nat32': return r.pick([0, 1, 4294967295]);
      case 'nat64': return this.n64(name); case 'int64': return r.pick([0n, 1n, -1n, 2n ** 63n - 1n, -(2n ** 63n)]); case 'int32': return r.pick([0, -1, 2147483647, -2147483648]); case 'int8': return r.pick([0, -128, 127]);
      case 'float64': case 'float32': return r.pick([0, -0, 1.5, Infinity, -Infinity, NaN]);
      case 'text': return this.text(name, root);
      case 'principal': return this.principal(name, root);
      case 'opt': return r.chance(/subaccount|memo/.test(name) ? 0.3 : 0.5) ? this.make(t.a, name, root, depth) : null;
      case 'vec': {
        if (deref(t.a).k === 'nat8') return this.blob(name);
        const top = depth === 0; const big = top && r.chance(0.04) && root !== 'mint';
        const n = big ? r.pick([30, 100, 500]) : depth > 6 ? 0 : r.weighted({ 0: 16, 1: 50, 2: 16, 3: 8, 5: 6, 9: top ? 3 : 0 }) | 0;
        const out = []; for (let i = 0; i < n; i++) out.push(i && r.chance(0.2) ? out[r.int(i)] : this.make(t.a, name, root, depth + 1)); return out;
      }
      case 'record': { const tuple = t.a.length && t.a.every((f, i) => f[0] === i); const o = {}; const l = t.a.map(([, n, ft]) => (o[n] = this.make(ft, /^\d+$/.test(n) ? name : n, root, depth + 1))); return tuple ? l : o; }
      case 'variant': {
        let c = t.a; if (depth > 6) { const flat = c.filter(f => !['vec', 'record', 'opt'].includes(deref(f[2]).k) || deref(deref(f[2]).a || T.nat).k === 'nat8'); if (flat.length) c = flat; }
        const f = r.pick(c); return { [f[1]]: this.make(f[2], name, root, depth + 1) };
      }
    }
    throw new Error('no generator for ' + t.k);
  }
}
// A value nested to the given depth.
const nested = (d, r) => { let v = { Nat: 1n }; for (let i = 0; i < d; i++) v = r.chance(0.5) ? { Array: [v] } : { Map: [['k', v]] }; return v; };

class Fuzz {
  constructor(spec, env) {
    this.spec = spec; this.env = env; this.rng = env.rng; this.n = env.counters; const r = this.rng; this.log = env.log = [];
    this.w = spec.world || new World(); this.ctl = P.user('controller'); this.users = [this.ctl, P.user('u1'), P.user('u2'), P.user('u3')];
    const wasm = this.wasm = env.wasm('core_nft', spec.build || 'prod');
    this.methods = []; for (const x of loadModule(wasm).exports.keys ? loadModule(wasm).exports.keys() : loadModule(wasm).exports) { const m = /^canister_(update|query) (.+)$/.exec(x); if (m && !m[2].startsWith('<')) this.methods.push({ m: m[2], q: m[1] === 'query' }); }
    this.methods.sort((a, b) => (a.m < b.m ? -1 : 1));
    const on = () => (r.chance(0.5) ? null : BigInt(r.pick([1, 2, 5, 10, 100])));
    this.init = { permissions: { user_permissions: [[this.ctl, PERMS.map(p => ({ [p]: null }))], [this.users[1], r.chance(0.5) ? [{ Minting: null }] : []]] }, test_mode: r.chance(0.5),
      supply_cap: r.chance(0.2) ? 40n : null, max_query_batch_size: on(), max_update_batch_size: on(), max_take_value: on(), default_take_value: on(), max_memo_size: on(), tx_window: r.pick([null, 1n, 1000n, 60000n]), permitted_drift: r.pick([null, 0n, 2000n, 2n ** 64n - 1n, 2n ** 60n]),
      atomic_batch_transfers: r.pick([null, true, false]), approval_init: { max_approvals_per_token_or_collection: r.pick([null, 1n, 3n, 2n ** 40n]), max_revoke_approvals: r.pick([null, 1n, 3n]) } };
    this.c = Core.deploy(this.w, wasm, this.ctl, this.init); if (this.c.trap) throw new Violation(['X02'], 'installing the canister traps', { init: plain(this.init), trap: this.c.trap });
    this.supply = 0; this.v = new Values(r, { tokens: () => this.supply, now: () => this.w.time, users: this.users, self: this.c.id, ctl: this.ctl });
    // the state the calls meet: tokens, approvals, an upload under way and a finished one
    for (let i = 0; i < 3; i++) { this.raw(this.ctl, 'mint', [{ mint_requests: [{ token_owner: { owner: this.users[i + 1], subaccount: null }, metadata: [['name', { Text: 't' + i }]], memo: null }] }]); this.supply++; this.pause(61n * SEC); }
    this.raw(this.ctl, 'init_upload', [{ file_path: '/up/1.bin', file_hash: HASHES[3], file_size: 4n, chunk_size: 2n }]);
    if (spec.withIndex) this.addIndex();
  }
  cnt(k, d = 1) { this.n[k] = (this.n[k] || 0) + d; }
  raw(caller, m, args) { return this.call({ m, q: false, caller, args }); }
  pause(d) { this.w.elapse(d); }
  bad(what, op, r) { throw new Violation([this.spec.tag || 'X02'], what, { method: op.m, mode: op.q ? 'query' : 'update', caller: op.caller, args: op.args === undefined ? undefined : plain(op.args).slice(0, 4000), answer: js(r).slice(0, 600), init: plain(this.init), time: this.w.time.toString() }); }
  // One call; the answer must be a reply or one of the documented refusals.
  call(op) {
    const arg = encode(types[op.m] || [], op.args); const id = this.c.id;
    const r = op.q ? this.w.query(id, op.m, arg, op.caller) : this.w.update(id, op.m, arg, op.caller);
    this.cnt('calls'); this.cnt('call ' + op.m); this.env.counters['fuzzed calls'] = (this.env.counters['fuzzed calls'] || 0) + 1;
    if (r.pending) this.bad('a call is never answered', op, { pending: true });
    if (r.reply !== undefined) { let d; try { d = decode(r.reply); } catch (e) { this.bad('the answer is not valid Candid: ' + e.message, op, { hex: r.reply.toString('hex').slice(0, 300) }); } this.env.distinct.add(op.m + (op.q ? ' q ' : ' u ') + shape(d[0])); return d[0]; }
    const [code, text] = r.reject;
    if (code === 4 && GUARDED.has(op.m) && op.caller !== this.ctl) { this.cnt('refused: permission'); return undefined; }
    if (this.refusalAllowed(op)) { this.cnt('refused: documented limit'); return undefined; }
    this.bad('a well-formed call is not answered but fails (' + text.slice(0, 700) + ')', op, r);
  }
  limit(m) { const r = this.w.query(this.c.id, m, encode([], []), this.ctl); if (r.reply === undefined) this.bad('a setting cannot be read', { m, q: true, caller: this.ctl }, r); const v = decode(r.reply)[0]; return v; }
  refusalAllowed(op) {
    const a = op.args;
    if (['icrc7_owner_of', 'icrc7_token_metadata', 'icrc7_balance_of'].includes(op.m)) { const l = this.limit('icrc7_max_query_batch_size'); return BigInt(a[0].length) > (l === null ? 100n : l); }
    if (op.m === 'icrc7_tokens') { const l = this.limit('icrc7_max_take_value'); return a[1] !== null && a[1] > (l === null ? 100n : l); }
    if (op.m === 'icrc7_tokens_of') { const l = this.limit('icrc7_max_take_value'); return a[2] !== null && a[2] > (l === null ? 100n : l); }
    if (op.m === 'mint' && !op.again) {
      // a mint larger than the log accepts is refused as a whole; each part on its own, once the log has room again, is not
      const win = this.limit('icrc7_tx_window'), wait = (win === null ? 10n ** 10n : BigInt(win) * MS) + SEC; if (wait > 3700n * SEC) { this.cnt('mints refused with a window without end'); return true; }
      for (const q of a[0].mint_requests) { this.pause(wait); const x = this.call({ ...op, args: [{ mint_requests: [q] }], again: true }); if (x && x.Ok !== undefined) this.supply++; }
      this.cnt('mints split'); return a[0].mint_requests.length > 0;
    }
    return false;
  }
  next() {
    const r = this.rng; const d = r.pick(this.methods.filter(x => (types[x.m] || NOARG.has(x.m)) && !(this.spec.pure && UPLOADS.has(x.m))));
    const q = QUERY_ONLY.has(d.m) ? true : d.q && r.chance(0.8); const ts = types[d.m] || [];
    const args = ts.map((t, i) => this.v.make(t, ARGN[d.m + i] || 'x', d.m));
    if (r.chance(0.04) && ['mint', 'update_nft_metadata', 'update_collection_metadata'].includes(d.m)) { const v = nested(r.pick([5, 20, 60]), r); const a = args[0]; if (d.m === 'mint') { if (a.mint_requests[0]) a.mint_requests[0].metadata = [['deep', v]]; } else if (d.m === 'update_nft_metadata') a.metadata = [['deep', v]]; else a.collection_metadata = [['deep', v]]; }
    if (d.m === 'update_collection_metadata') for (const k of ['tx_window', 'permitted_drift']) if (args[0][k] > 60000n && r.chance(0.7)) args[0][k] = null;
    return { m: d.m, q, caller: r.chance(0.55) ? this.ctl : r.pick([...this.users, P.ANON]), args };
  }
  step() {
    const r = this.rng, x = r.u32() / 4294967296;
    if (x < 0.14) { const d = r.pick([1n, 50n * MS, 61n * MS, SEC, 61n * SEC, 130n * SEC]); this.log.push('wait ' + d); this.pause(d); this.cnt('pauses'); return; }
    if (x < 0.155) return this.malformed();
    if (x < 0.165 && !this.spec.noUpgrade) { this.log.push('upgrade'); const u = this.c.upgradeTo(this.wasm, this.ctl); this.w.run(); this.cnt('upgrades'); if (!u.ok) throw new Violation([this.spec.tag || 'X02'], 'the upgrade traps', { trap: u.trap, recent: this.log.slice(-15) }); return; }
    if (this.idx && x < 0.30) return this.indexCall();
    const op = this.next(); this.log.push(op.m); const a = this.call(op);
    if (op.m === 'mint' && a && a.Ok !== undefined) this.supply = Number(this.limit('icrc7_total_supply')) + 1;
    if (op.m.startsWith('get_all_uploads') && a) this.cnt('upload lists');
  }
  // Bytes that do not match the interface may be refused, but only by refusing: the state stays as it was.
  malformed() {
    const r = this.rng, d = r.pick(this.methods), q = d.q && (QUERY_ONLY.has(d.m) || r.chance(0.8)); const good = encode(types[d.m] || [], (types[d.m] || []).map((t, i) => this.v.make(t, ARGN[d.m + i] || 'x', d.m)));
    const arg = r.chance(0.4) ? good.subarray(0, r.int(good.length)) : r.chance(0.5) ? Buffer.concat([good.subarray(0, r.int(good.length)), r.bytes(r.int(9))]) : r.bytes(r.int(60));
    const before = this.limit('icrc7_total_supply'); if (d.m === 'revoke_permission') return;
    const x = q ? this.w.query(this.c.id, d.m, arg, this.ctl) : this.w.update(this.c.id, d.m, arg, this.ctl); this.cnt('malformed arguments'); this.log.push('malformed ' + d.m);
    if (x.pending) this.bad('a malformed call is never answered', { m: d.m, q, caller: this.ctl }, { pending: true });
    const after = this.limit('icrc7_total_supply'); if (x.reply === undefined && js(before) !== js(after)) this.bad('a refused malformed call changed the supply', { m: d.m, q, caller: this.ctl }, { before: js(before), after: js(after) });
  }
  addIndex() {
    this.idx = this.w.createCanister([this.ctl]);
    const a = encode([InitArg], [{ Init: { test_mode: true, version: { major: 0, minor: 0, patch: 1 }, commit_hash: 'h', authorized_principals: [this.ctl], ledger_canister_id: this.c.id } }]);
    const i = this.w.install(this.idx, this.env.wasm('index_icrc7', this.spec.build || 'prod'), a, this.ctl); if (!i.ok) throw new Violation([this.spec.tag || 'X02'], 'installing the index traps', { trap: i.trap }); this.w.run();
  }
  indexCall() {
    const r = this.rng; const args = [this.v.make(GetArgs, 'x', 'index')]; args[0].length = r.chance(0.8) ? BigInt.asUintN(64, BigInt(r.int(8))) : args[0].length;
    const x = this.w.update(this.idx, 'get_blocks', encode([GetArgs], args), r.pick(this.users)); this.cnt('index calls'); this.log.push('index get_blocks');
    const op = { m: 'get_blocks (index)', q: false, caller: 'user', args };
    if (x.pending) this.bad('an index call is never answered', op, { pending: true });
    if (x.reply === undefined) this.bad('a well-formed index call fails (' + x.reject[1].slice(0, 200) + ')', op, x);
    for (const m of ['status', 'ledger_id']) { const y = this.w.query(this.idx, m, encode([], []), this.ctl); if (y.reply === undefined) this.bad('an index query fails', { m, q: true, caller: this.ctl }, y); }
  }
  run() {
    for (let i = 0; i < (this.spec.steps || 150); i++) this.step();
    // the canister still answers everything it reports about itself, and still upgrades
    for (const d of this.methods) if (d.q && NOARG.has(d.m)) this.call({ m: d.m, q: true, caller: this.ctl, args: [] });
    this.call({ m: 'icrc3_get_blocks', q: true, caller: this.ctl, args: [[{ start: 0n, length: 2000n }]] });
    if (!this.spec.noUpgrade) { const u = this.c.upgradeTo(this.wasm, this.ctl); this.w.run(); if (!u.ok) throw new Violation([this.spec.tag || 'X02'], 'the upgrade at the end traps', { trap: u.trap, recent: this.log.slice(-15) }); }
  }
}
const shape = v => (v === null || v === undefined ? '-' : Array.isArray(v) ? '[' + [...new Set(v.slice(0, 6).map(shape))].sort().join() + ']' : Buffer.isBuffer(v) ? 'b' : typeof v === 'object' ? '{' + Object.keys(v).slice(0, 4).map(k => k + (k === 'Err' || k === 'Ok' ? ':' + shape(v[k]) : '')).join() + '}' : typeof v);
const UPLOADS = new Set(['init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload']);
const NOARG = new Set(['icrc10_supported_standards', 'icrc3_get_properties', 'icrc3_get_tip_certificate', 'icrc3_supported_block_types', 'icrc37_metadata', 'icrc37_max_approvals_per_token_or_collection', 'icrc37_max_revoke_approvals', 'icrc7_atomic_batch_transfers', 'icrc7_collection_metadata', 'icrc7_default_take_value', 'icrc7_description', 'icrc7_logo', 'icrc7_max_memo_size', 'icrc7_max_query_batch_size', 'icrc7_max_take_value', 'icrc7_max_update_batch_size', 'icrc7_name', 'icrc7_permitted_drift', 'icrc7_supply_cap', 'icrc7_symbol', 'icrc7_total_supply', 'icrc7_tx_window', 'get_all_storage_subcanisters']);
const ARGN = { icrc7_tokens0: 'token_id', icrc7_tokens1: 'take', icrc7_tokens_of1: 'token_id', icrc7_tokens_of2: 'take', icrc7_owner_of0: 'token_id', icrc7_token_metadata0: 'token_id', icrc37_get_token_approvals0: 'token_id', icrc37_get_token_approvals2: 'take', icrc37_get_collection_approvals2: 'take', burn_nft0: 'token_id', get_upload_status0: 'file_path', get_all_uploads0: 'start', get_all_uploads1: 'take' };
function fuzz(spec, env) { const f = new Fuzz(spec, env); f.run(); return f; }

// ---- consent messages
const SUPPORTED = ['icrc7_transfer', 'icrc37_approve_tokens', 'icrc37_approve_collection', 'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals', 'icrc37_transfer_from'];
const COUNTED = new Set(['icrc7_transfer', 'icrc37_approve_tokens', 'icrc37_revoke_token_approvals', 'icrc37_transfer_from']);
function consent(spec, env) {
  const f = new Fuzz({ ...spec, withIndex: false, tag: 'X04' }, env), r = env.rng, M = 'icrc21_canister_call_consent_message', CT = types[M];
  const fail = (what, args, a) => { throw new Violation(['X04'], what, { method: args[0].method, arg: args[0].arg.toString('hex').slice(0, 2000), preferences: js(args[0].user_preferences), answer: js(a).slice(0, 1500) }); };
  const pref = () => ({ metadata: { language: r.pick(['en', 'fr', '', 'x'.repeat(200), '\u{1F600}']), utc_offset_minutes: r.pick([null, 0, 60, -720, 32767, -32768]) }, device_spec: r.pick([null, { GenericDisplay: null }, { LineDisplay: { characters_per_line: r.pick([0, 1, 65535]), lines_per_page: r.pick([0, 1, 65535]) } }]) });
  const ask = args => { const a = encode(CT, args), x = r.chance(0.8) ? f.w.query(f.c.id, M, a, r.pick([...f.users, P.ANON])) : f.w.update(f.c.id, M, a, r.pick([...f.users, P.ANON])); f.cnt('consent requests'); if (x.reply === undefined) fail('a consent request fails: ' + js(x).slice(0, 200), args, x); return decode(x.reply)[0]; };
  const unsupported = (args, why) => { const a = ask(args); if (tag(a) !== 'Err' || tag(a.Err) !== 'UnsupportedCanisterCall') fail('a consent request for ' + why + ' is not answered with the unsupported-call error', args, a); f.cnt('consent refused: ' + why); env.distinct.add('refused ' + why); };
  for (let i = 0; i < (spec.steps || 300); i++) {
    const m = r.pick(SUPPORTED), x = r.u32() / 4294967296; let list = f.v.make(types[m][0], 'x', m);
    if (r.chance(0.1)) { const one = f.v.make(types[m][0].a, 'x', m, 1); list = Array.from({ length: r.pick([2, 10, 11, 50, 101, 1000]) }, () => one); }
    const arg = encode(types[m], [list]);
    if (x < 0.12) { const other = r.pick(['', 'mint', 'burn_nft', 'icrc7_transfers', 'ICRC7_TRANSFER', ' icrc7_transfer', 'icrc7_owner_of', 'icrc37_transfer_from2', 'icrc7', 'update_nft_metadata', '\u0000', r.bytes(8).toString('latin1')]); unsupported([{ method: other, arg, user_preferences: pref() }], 'an unsupported method'); continue; }
    if (x < 0.3) {
      const k = r.int(5); let b, why;
      if (k === 0) { b = Buffer.alloc(0); why = 'empty argument bytes'; } else if (k === 1) { b = arg.subarray(0, r.int(arg.length)); why = 'a truncated argument'; } else if (k === 2) { b = r.bytes(r.range(1, 60)); why = 'random argument bytes'; }
      else if (k === 3) { b = Buffer.concat([arg, r.bytes(r.range(1, 4))]); why = 'an argument with bytes left over'; }
      else { const t = r.pick([T.text, T.bool, T.vec(T.text), T.record({ a: T.nat })]); b = encode([t], [new Values(r, f.v.o).make(t, 'x', 'x')]); why = 'an argument of another type'; if (t.k === 'vec') { b = encode([t], [['a']]); } }
      unsupported([{ method: m, arg: b, user_preferences: pref() }], why); continue;
    }
    const args = [{ method: m, arg, user_preferences: pref() }], a = ask(args); f.cnt('consent ' + m); env.distinct.add(m + ' ' + Math.min(list.length, 12) + ' ' + js(args[0].user_preferences.device_spec).slice(0, 20));
    if (tag(a) !== 'Ok') fail('a consent request for a valid call is refused', args, a);
    const cm = a.Ok.consent_message, text = textsOf(cm).join('\n');
    const words = text.match(/[A-Za-z0-9_]+/g) || []; const named = SUPPORTED.filter(s => words.includes(s));
    if (named.length !== 1 || named[0] !== m) fail('the consent message names the methods ' + js(named) + ' instead of ' + m, args, a);
    if (COUNTED.has(m) && list.length > 1) { f.cnt('batch counts checked'); if (!words.includes(String(list.length))) fail('the consent message for a batch does not name its size ' + list.length, args, a); }
    if (m === 'icrc37_approve_collection' && list.length === 1) { f.cnt('spenders checked'); if (!text.includes(list[0].approval_info.spender.owner)) fail('the consent message of a collection approval does not name its spender', args, a); }
    const want = args[0].user_preferences.metadata, got = a.Ok.metadata;
    if (got.language !== want.language || (got.utc_offset_minutes === undefined ? null : got.utc_offset_minutes) !== want.utc_offset_minutes) fail('the consent message does not echo the requested settings', args, a);
    if (r.chance(0.1)) f.pause(r.pick([61n * SEC, 5n * SEC]));
    if (r.chance(0.05)) f.step();
  }
  return f;
}
const textsOf = v => (typeof v === 'string' ? [v] : Array.isArray(v) ? v.flatMap(textsOf) : v && typeof v === 'object' ? Object.values(v).flatMap(textsOf) : []);
module.exports = { Fuzz, fuzz, consent, Values };
