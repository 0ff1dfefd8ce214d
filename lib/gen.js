'use strict';
// Generator of ledger operations: mostly valid ones, with values at and just beyond every limit.
const P = require('../sim/principal');
const { PERMS } = require('../sim/core');
const { akey, isDefault, ZERO32 } = require('./util');
const { MS, SEC, U64, S1, S2, SETTINGS } = require('./ledger');

const BASE = { mint: 8, burn: 4, transfer: 22, transferFrom: 22, approveTok: 16, approveColl: 8, revokeTok: 7, revokeColl: 5, updateMeta: 5, updateColl: 2, grant: 1, revoke: 1, upgrade: 1, replay: 4, burst: 2, time: 2 };
const PROFILES = {
  base: BASE,
  owners: { ...BASE, mint: 12, burn: 8, transfer: 30, transferFrom: 25, updateColl: 0, replay: 2 },
  approvals: { ...BASE, mint: 5, burn: 3, transfer: 12, transferFrom: 30, approveTok: 25, approveColl: 16, revokeTok: 12, revokeColl: 10, updateMeta: 0, updateColl: 0, grant: 0, revoke: 0, replay: 1 },
  timing: { ...BASE, updateColl: 6, replay: 8, transfer: 30, updateMeta: 0, grant: 0, revoke: 0 },
  replay: { ...BASE, replay: 30, transfer: 25, transferFrom: 20, burst: 0, updateMeta: 0, approveColl: 3, approveTok: 8 },
  limits: { ...BASE, mint: 20, transfer: 30, updateColl: 8, burn: 6, approveTok: 6, transferFrom: 8 },
  rate: { ...BASE, burst: 25, upgrade: 1, updateColl: 0, mint: 4 },
  mint: { ...BASE, mint: 30, burn: 14, updateColl: 5, upgrade: 3, approveColl: 2, revokeColl: 1 },
  meta: { ...BASE, mint: 18, updateMeta: 30, burn: 5, upgrade: 3, approveColl: 2, revokeColl: 1, approveTok: 4 },
  settings: { ...BASE, updateColl: 20, upgrade: 3 },
  perms: { ...BASE, grant: 20, revoke: 16, mint: 10, updateMeta: 8, updateColl: 8, upgrade: 3, transfer: 6, transferFrom: 6 },
  upgrade: { ...BASE, upgrade: 8, grant: 2, revoke: 2, updateColl: 3 },
  log: { ...BASE, upgrade: 2, updateMeta: 6 },
};
const SUBS = [null, ZERO32, S1, S2];

// ---- configurations
function randInit(rng, o = {}) {
  const i = {}; const maybe = (p, k, f) => { if (rng.chance(p)) i[k] = f(); };
  const small = o.small || 0.3;
  maybe(small, 'max_update_batch_size', () => BigInt(rng.pick([1, 2, 3, 5, 8])));
  maybe(small, 'max_query_batch_size', () => BigInt(rng.pick([1, 2, 3, 7, 20])));
  maybe(small, 'max_take_value', () => BigInt(rng.pick([1, 2, 3, 5, 9])));
  maybe(small, 'default_take_value', () => (i.max_take_value ? BigInt(rng.range(1, Number(i.max_take_value))) : BigInt(rng.pick([1, 2, 4, 30]))));
  maybe(small, 'max_memo_size', () => BigInt(rng.pick([0, 1, 4, 32, 70])));
  maybe(small * 0.7, 'supply_cap', () => BigInt(rng.pick([3, 6, 10, 20])));
  maybe(small, 'atomic_batch_transfers', () => rng.chance(0.6));
  maybe(0.3, 'permitted_drift', () => BigInt(rng.pick([0, 1, 1_000_000, 60_000_000, 2_000_000_000])));
  maybe(0.4, 'description', () => odd(rng, 'desc ' + rng.int(1000))); maybe(0.3, 'logo', () => 'https://logo.example/' + rng.int(99));
  maybe(0.5, 'symbol', () => odd(rng, 'S' + rng.int(99))); maybe(0.5, 'name', () => odd(rng, 'N' + rng.int(99)));
  maybe(0.3, 'collection_metadata', () => { const l = []; for (let k = 0; k < rng.range(1, 3); k++) l.push(['k' + k, value(rng, 2)]); return l; });
  maybe(0.2, 'max_canister_storage_threshold', () => BigInt(rng.pick([1, 5_000_000, 1 << 30])));
  i.approval_init = { max_approvals_per_token_or_collection: rng.chance(0.45) ? BigInt(rng.pick([1, 2, 3, 4, 12])) : null, max_revoke_approvals: rng.chance(0.45) ? BigInt(rng.pick([1, 2, 3])) : null };
  if (o.perms || rng.chance(0.3)) {
    i.test_mode = rng.chance(0.5);
    const up = [[P.user('controller'), [...PERMS]]]; for (const u of ['alice', 'bob', 'carol']) if (rng.chance(0.6)) up.push([P.user(u), rng.shuffle(PERMS.slice()).slice(0, rng.int(4))]);
    i.permissions = { user_permissions: up.map(([p, l]) => [p, l]) };
  }
  return Object.assign(i, o.force || {});
}
const odd = (rng, t) => (rng.chance(0.15) ? rng.pick(['', ' ', ' ' + t + ' ', t.toUpperCase(), 'ü🦆' + t, t.repeat(rng.range(2, 400))]) : t); // unusual texts
function value(rng, depth = 3) {
  const kinds = ['Nat', 'Int', 'Text', 'Blob']; if (depth > 0) kinds.push('Array', 'Map');
  switch (rng.pick(kinds)) {
    case 'Nat': return { Nat: rng.pick([0n, 1n, BigInt(rng.u32()), 1n << 32n, (1n << 63n) - 1n, 1n << 63n, U64, U64 + 1n, 1n << 127n, (1n << 128n) - 1n, 1n << 128n, (1n << 200n) + 12345n]) };
    case 'Int': return { Int: rng.pick([0n, 1n, -1n, BigInt(rng.u32()), -BigInt(rng.u32()), (1n << 63n) - 1n, -(1n << 63n), -(1n << 63n) - 1n, 1n << 63n, U64 + 1n, -(1n << 64n), -(1n << 130n), 1n << 130n]) };
    case 'Text': return { Text: rng.pick(['', 'a', 'x'.repeat(rng.int(300)), 'Zażółć 🦆 ' + rng.int(1000), '\u0000\n"\\', ' Mixed Case  \t', 'e\u0301', 'https://e.x/' + rng.int(1e6), ...(rng.chance(0.1) ? ['Long '.repeat(2000)] : [])]) };
    case 'Blob': return { Blob: rng.bytes(rng.pick([0, 1, 31, 32, 33, 255, 256, 1000, ...(rng.chance(0.1) ? [9000] : [])])) };
    case 'Array': return { Array: Array.from({ length: rng.chance(0.04) ? 40 : rng.int(4) }, () => value(rng, depth - 1)) };
    default: return { Map: [...new Map(Array.from({ length: rng.int(4) }, (_, i) => [rng.pick(['', 'a', 'A', ' a', 'a ', 'icrc7:name', 'k' + i, 'é' + i, 'e\u0301' + i, 'q'.repeat(300)]), value(rng, depth - 1)]))] };
  }
}
function metadata(rng) { const m = new Map(); const n = rng.weighted({ 0: 1, 1: 3, 2: 3, 5: 1 }); for (let i = 0; i < Number(n); i++) m.set(rng.pick(['icrc7:metadata:uri', 'name', 'attributes', 'k' + i, '', ' ', 'Name', 'name ', 'ключ', 'z'.repeat(80)]), value(rng, 3)); const l = [...m]; if (l.length && rng.chance(0.05)) l.push([l[0][0], value(rng, 1)]); return l; }

class Gen {
  constructor(s, profile, o = {}) { this.s = s; this.rng = s.rng; this.p = { ...PROFILES[profile], ...(o.weights || {}) }; this.sent = []; this.o = o; this.queued = []; this.a = 0n; }
  acct(owner, sub) { return { owner, subaccount: sub || null }; }
  user() { return this.rng.pick(this.s.users); }
  sub() { return this.rng.pick(this.s.subs); }
  someone() { const r = this.rng; if (r.chance(0.03)) return this.acct(P.ANON, this.sub()); if (r.chance(0.04)) return this.acct(this.s.ctl, null); return this.acct(this.user(), this.sub()); }
  ids() { return [...this.s.tokens.keys()]; }
  token(pGhost = 0.05) { const ids = this.ids(); if (!ids.length || this.rng.chance(pGhost)) return this.rng.pick([0n, this.s.next, this.s.next + 5n, 1n << 64n, (1n << 64n) + 1n, ...[...this.s.burnt].slice(-3).map(BigInt)]); if (this.hot && this.s.tokens.has(this.hot) && this.rng.chance(0.5)) return BigInt(this.hot); const k = this.rng.pick(ids); this.hot = k; return BigInt(k); }
  ownerOf(id) { const t = this.s.tokens.get(String(id)); return t ? t.owner : null; }
  memo() { const r = this.rng, m = this.s.maxMemo; if (r.chance(0.55)) return null; if (m <= 2000n) return r.bytes(Math.max(0, Number(m) + r.pick([0, 0, -1, 1]))); return r.bytes(r.pick([0, 1, 3, 32, 33])); }
  anyMemo() { return this.rng.chance(0.6) ? null : this.rng.bytes(this.rng.pick([0, 1, 5, 32, 77])); }
  clamp(t) { return t < 0n ? 0n : t > U64 ? U64 : t; }
  created(kind) {
    const r = this.rng, s = this.s, now = s.now + this.a, w = s.window, d = s.drift; const low = kind === 7 ? now - w - d : now - w;
    switch (r.weighted({ now: 4, edgeFut: 1, overFut: 0.6, edgeOld: 1, overOld: 0.6, in: 2, zero: 0.1, max: 0.1 })) {
      case 'now': return now; case 'edgeFut': return this.clamp(now + d); case 'overFut': return this.clamp(now + d + BigInt(r.pick([1, 1, 2, 1_000_000]))); case 'edgeOld': return this.clamp(low); case 'overOld': return this.clamp(low - BigInt(r.pick([1, 1, 1000, 1_000_000])));
      case 'in': return this.clamp(now - BigInt(r.int(1000)) * (w > 1000n * 1000n * SEC ? MS : w / 1000n)); case 'zero': return 0n; default: return U64;
    }
  }
  createdOpt(kind) { return this.rng.chance(0.5) ? null : this.created(kind); }
  expiry() { const r = this.rng, now = this.s.now + this.a; switch (r.weighted({ none: 5, soon: 3, later: 3, now: 0.3, past: 0.4, next: 0.6, max: 0.4 })) { case 'none': return null; case 'soon': return now + BigInt(r.range(1, 400)) * MS; case 'later': return now + BigInt(r.range(1, 40)) * SEC; case 'now': return now; case 'past': return r.pick([now - BigInt(r.range(1, 100)) * MS, 0n, 1n]); case 'next': return now + 1n; default: return U64; } }
  pause() {
    const r = this.rng, s = this.s;
    // sometimes stop exactly at, just before or just after the expiry of an outstanding approval
    if (r.chance(0.06)) { const e = []; for (const M of [s.tok, s.coll]) for (const m of M.values()) for (const x of m.values()) if (x.exp !== null && x.exp > s.now + 2n && x.exp < s.now + 60n * SEC) e.push(x.exp); if (e.length) return r.pick(e) - s.now + BigInt(r.pick([-1, 0, 0, 1])); }
    switch (r.weighted(this.o.pauses || { none: 22, few: 14, mid: 40, over: 14, edge: 3, sec: 4, win: 2, arch: this.o.noArchive ? 0 : 0.5 })) {
      case 'none': return 0n; case 'few': return BigInt(r.range(1, 20)) * MS; case 'mid': return BigInt(r.range(21, 99)) * MS; case 'over': return BigInt(r.range(100, 300)) * MS; case 'edge': return 60n * MS + BigInt(r.pick([-1, 0, 1])); case 'sec': return BigInt(r.range(1, 9)) * SEC; case 'win': return 10n * SEC + BigInt(r.pick([-1, 0, 1, 50_000_000])); default: return BigInt(r.range(121, 400)) * SEC;
    }
  }
  next() {
    if (this.queued.length) return this.queued.shift();
    this.a = this.pause(); let k = this.rng.weighted(this.p); const s = this.s;
    if (k !== 'mint' && s.tokens.size === 0 && this.rng.chance(0.8)) k = 'mint';
    const op = this['g_' + k](); if (!op) return this.next();
    op.k = op.k || k; if (op.adv === undefined) op.adv = this.a;
    if (['transfer', 'transferFrom'].includes(op.k) && op.args.some(a => a.created_at_time !== null)) { this.sent.push(op); if (this.sent.length > 12) this.sent.shift(); }
    return op;
  }
  g_time() { return { adv: this.rng.pick([MS, 60n * MS, 101n * MS, SEC, 10n * SEC]) }; }
  g_upgrade() { return {}; }
  g_mint() {
    const r = this.rng, s = this.s; let n = Number(r.weighted({ 0: 0.2, 1: 6, 2: 3, 3: 2, 4: 1 }));
    if (s.tokens.size > 30) n = Math.min(n, 1);
    if (s.maxBatch < 20n && r.chance(0.25)) n = Number(s.maxBatch) + r.int(2); if (s.cap < 100n && r.chance(0.3)) { const left = Number(s.cap) - s.tokens.size; n = Math.max(0, Math.min(9, left + r.int(2))); }
    const caller = r.chance(0.9) ? this.admin('Minting') : r.pick([...s.users, P.ANON]);
    const same = r.chance(0.25) ? this.someone() : null; // several tokens at once for one account
    return { caller, reqs: Array.from({ length: n }, () => ({ token_owner: same || this.someone(), metadata: r.chance(0.6) ? metadata(r) : [], memo: this.memo() })) };
  }
  admin(perm) { const l = [...this.s.perms].filter(([, x]) => x.has(perm)).map(x => x[0]); return l.length ? this.rng.pick(l) : this.s.ctl; }
  g_burn() { const id = this.token(), o = this.ownerOf(id); return { caller: o && this.rng.chance(0.85) ? o.owner : this.user(), id }; }
  g_updateMeta() { const id = this.token(); return { caller: this.rng.chance(0.88) ? this.admin('UpdateMetadata') : this.rng.pick([this.user(), P.ANON]), id, meta: metadata(this.rng) }; }
  g_updateColl() {
    const r = this.rng, set = {}; const n = r.range(0, 3);
    const V = { description: () => odd(r, 'd' + r.int(99)), symbol: () => odd(r, 'y' + r.int(99)), name: () => odd(r, 'n' + r.int(99)), logo: () => odd(r, 'https://l/' + r.int(99)), supply_cap: () => BigInt(r.pick([0, 5, 12, 100])), max_query_batch_size: () => BigInt(r.pick([1, 2, 5, 60])), max_update_batch_size: () => BigInt(r.pick([1, 2, 4, 60])), max_take_value: () => BigInt(r.pick([2, 3, 50])), default_take_value: () => BigInt(r.pick([1, 2])), max_memo_size: () => BigInt(r.pick([0, 3, 40])), atomic_batch_transfers: () => r.chance(0.5), tx_window: () => BigInt(r.pick([0, 1, 1000_000_000, 60_000_000_000])), permitted_drift: () => BigInt(r.pick([0, 1, 5_000_000, 3_000_000_000])), max_canister_storage_threshold: () => BigInt(r.pick([1, 1e9])) };
    if (this.o.bigLimits && r.chance(0.3)) { const k = r.pick(['max_query_batch_size', 'max_update_batch_size', 'max_take_value', 'default_take_value', 'max_memo_size', 'supply_cap']); set[k] = r.pick([(1n << 32n) - 1n, 1n << 32n, (1n << 32n) + 1n, U64, U64 + 1n, 1n << 100n]); if (k === 'default_take_value') set.max_take_value = set[k]; }
    for (let i = 0; i < n; i++) { const k = r.pick(SETTINGS); if (set[k] === undefined) set[k] = V[k](); }
    const cmeta = r.chance(0.25) ? [['k' + r.int(3), value(r, 2)]] : null;
    return { caller: r.chance(0.85) ? this.admin('UpdateCollectionMetadata') : r.pick([this.user(), P.ANON]), set, cmeta };
  }
  g_grant() { return { caller: this.rng.chance(0.85) ? this.admin('ManageAuthorities') : this.rng.pick([this.user(), P.ANON]), who: this.rng.pick([...this.s.users, P.ANON]), perm: this.rng.pick(PERMS) }; }
  g_revoke() {
    const r = this.rng, s = this.s, held = []; for (const [p, x] of s.perms) for (const y of x) if (p !== s.ctl) held.push([p, y]);
    const [who, perm] = held.length && r.chance(0.8) ? r.pick(held) : [r.pick(s.users), r.pick(PERMS)];
    return { caller: r.chance(0.85) ? this.admin('ManageAuthorities') : r.pick([this.user(), P.ANON]), who, perm };
  }
  batchN(max) { const r = this.rng; if (max < 9n && r.chance(0.3)) return Number(max) + r.int(2) + (r.chance(0.1) ? 1 : 0); return Number(r.weighted({ 0: 0.15, 1: 7, 2: 2, 3: 1.2, 4: 0.6 })); }
  g_transfer() {
    const r = this.rng, s = this.s, n = this.batchN(s.maxBatch); const id0 = this.token(), o0 = this.ownerOf(id0);
    const caller = o0 && r.chance(0.88) ? o0.owner : r.chance(0.1) ? P.ANON : this.user();
    const mine = this.ids().filter(k => s.tokens.get(k).owner.owner === caller);
    return { caller, args: Array.from({ length: n }, (_, i) => {
      const id = i === 0 ? id0 : mine.length && r.chance(0.75) ? BigInt(r.pick(mine)) : this.token(), o = this.ownerOf(id);
      let to = this.someone(); if (o && r.chance(0.04)) to = isDefault(o) && r.chance(0.5) ? this.acct(o.owner, o.subaccount ? null : s.subs.length > 1 ? ZERO32 : null) : o;
      return { to, token_id: id, memo: this.memo(), from_subaccount: r.chance(0.75) ? (o ? o.subaccount : null) : r.chance(0.5) ? null : this.sub(), created_at_time: this.createdOpt(7) };
    }) };
  }
  approvedPairs() { // [tokenId, owner, spender]
    const s = this.s, out = []; for (const [k, m] of s.tok) { const t = s.tokens.get(k); if (t) for (const e of m.values()) out.push([BigInt(k), t.owner, e.spender]); }
    for (const [fk, m] of s.coll) for (const t of s.tokens.values()) if (akey(t.owner) === fk) for (const e of m.values()) out.push([t.id, t.owner, e.spender]);
    return out;
  }
  endedPairs() { const s = this.s, out = []; for (const x of s.endedTok.keys()) { const [k, a] = x.split('/'), t = s.tokens.get(k); if (t) out.push([t.id, t.owner, a]); } for (const x of s.endedColl.keys()) { const [fk, a] = x.split('/'); for (const t of s.tokens.values()) if (akey(t.owner) === fk) out.push([t.id, t.owner, a]); } return out; }
  fromKey(a) { const [o, h] = a.split('|'), b = Buffer.from(h, 'hex'); return this.acct(o, b.equals(ZERO32) ? null : b); }
  g_transferFrom() {
    const r = this.rng, s = this.s, n = Number(r.weighted({ 0: 0.1, 1: 8, 2: 1.5, 3: 0.6 })); let caller = this.user(), first = null;
    const ok = this.approvedPairs(), ended = this.endedPairs();
    const kind = r.weighted({ approved: ok.length ? 10 : 0, ended: ended.length ? 4 : 0, self: 2, random: 2 });
    if (kind === 'approved') { const [id, o, sp] = r.pick(ok); first = { id, o, sp }; }
    else if (kind === 'ended') { const [id, o, a] = r.pick(ended); first = { id, o, sp: this.fromKey(a) }; }
    else if (kind === 'self') { const id = this.token(), o = this.ownerOf(id); first = { id, o: o || this.someone(), sp: o || this.someone() }; }
    else { const id = this.token(); first = { id, o: this.ownerOf(id) || this.someone(), sp: this.someone() }; }
    caller = first.sp.owner;
    const rest = ok.filter(x => x[2].owner === caller);
    return { caller, args: Array.from({ length: n }, (_, i) => {
      let x = first; if (i > 0) { if (rest.length && r.chance(0.7)) { const [id, o, sp] = r.pick(rest); x = { id, o, sp }; } else { const id = this.token(); x = { id, o: this.ownerOf(id) || this.someone(), sp: this.acct(caller, this.sub()) }; } }
      let from = x.o; if (r.chance(0.06)) from = this.someone(); let to = this.someone(); if (r.chance(0.03)) to = from;
      if (r.chance(0.1)) to = x.sp;
      return { spender_subaccount: r.chance(0.93) ? x.sp.subaccount : this.sub(), from, to, token_id: x.id, memo: this.anyMemo(), created_at_time: this.createdOpt(37) };
    }) };
  }
  spender(map) { const r = this.rng; if (map && map.size && r.chance(0.2)) return r.pick([...map.values()]).spender; if (r.chance(0.04)) return this.acct(P.ANON, null); return this.someone(); }
  info(from, map) { const r = this.rng; return { spender: this.spender(map), from_subaccount: from.subaccount, expires_at: this.expiry(), memo: this.anyMemo(), created_at_time: r.chance(0.7) ? this.s.now + this.a : this.created(37) }; }
  g_approveTok() {
    const r = this.rng, s = this.s, n = Number(r.weighted({ 0: 0.1, 1: 7, 2: 2, 3: 1 })); const id0 = this.token(), o0 = this.ownerOf(id0); const caller = o0 && r.chance(0.88) ? o0.owner : this.user();
    const mine = this.ids().filter(k => s.tokens.get(k).owner.owner === caller);
    return { caller, args: Array.from({ length: n }, (_, i) => { const id = i === 0 || r.chance(0.35) ? id0 : mine.length && r.chance(0.7) ? BigInt(r.pick(mine)) : this.token(), o = this.ownerOf(id); const from = o && r.chance(0.93) ? o : this.acct(caller, this.sub()); return { token_id: id, approval_info: this.info(from, s.tok.get(String(id))) }; }) };
  }
  g_approveColl() {
    const r = this.rng, s = this.s, n = Number(r.weighted({ 0: 0.1, 1: 7, 2: 2, 3: 1 })); const id = this.token(), o = this.ownerOf(id); const from = o && r.chance(0.85) ? o : this.acct(this.user(), this.sub());
    return { caller: from.owner, args: Array.from({ length: n }, () => ({ approval_info: this.info(r.chance(0.9) ? from : this.acct(from.owner, this.sub()), s.coll.get(akey(from))) })) };
  }
  g_revokeTok() {
    const r = this.rng, s = this.s, n = this.batchN(s.revLim); const ks = [...s.tok.keys()].filter(k => s.tokens.has(k)); const id0 = ks.length && r.chance(0.85) ? BigInt(r.pick(ks)) : this.token(), o0 = this.ownerOf(id0); const caller = o0 && r.chance(0.88) ? o0.owner : this.user();
    const mine = ks.filter(k => s.tokens.get(k).owner.owner === caller);
    return { caller, args: Array.from({ length: n }, (_, i) => { const id = i === 0 || r.chance(0.3) ? id0 : mine.length && r.chance(0.8) ? BigInt(r.pick(mine)) : this.token(), o = this.ownerOf(id), m = s.tok.get(String(id)); const sp = r.chance(0.25) ? null : m && m.size && r.chance(0.8) ? r.pick([...m.values()]).spender : this.someone(); return { spender: sp, from_subaccount: o && r.chance(0.93) ? o.subaccount : this.sub(), token_id: id, memo: this.anyMemo(), created_at_time: this.createdOpt(37) }; }) };
  }
  g_revokeColl() {
    const r = this.rng, s = this.s, n = this.batchN(s.revLim); const ks = [...s.coll.keys()]; const from = ks.length && r.chance(0.85) ? this.fromKey(r.pick(ks)) : this.acct(this.user(), this.sub()), m = s.coll.get(akey(from));
    return { caller: from.owner, args: Array.from({ length: n }, () => ({ spender: r.chance(0.25) ? null : m && m.size && r.chance(0.8) ? r.pick([...m.values()]).spender : this.someone(), from_subaccount: r.chance(0.93) ? from.subaccount : this.sub(), memo: this.anyMemo(), created_at_time: this.createdOpt(37) })) };
  }
  g_replay() { // submit an earlier operation again, sometimes after moving the token back
    const r = this.rng, s = this.s, l = this.sent; if (!l.length) return null; const old = r.pick(l.slice(-5));
    const again = { k: old.k, caller: old.caller, args: old.args, adv: r.pick([0n, MS, 30n * MS, 60n * MS, ...(s.memory ? [200n * MS, 400n * MS] : [])]) };
    const a = old.args[0];
    if (a && r.chance(0.6)) { // bring the token home first so that the repeat would be allowed
      const t = s.tokens.get(String(a.token_id)); const home = old.k === 'transfer' ? { owner: old.caller, subaccount: a.from_subaccount } : a.from;
      if (t && akey(t.owner) !== akey(home)) {
        const back = { k: 'transfer', caller: t.owner.owner, adv: r.pick([0n, 5n * MS, 25n * MS]), args: [{ to: home, token_id: a.token_id, memo: null, from_subaccount: t.owner.subaccount, created_at_time: null }] };
        if (old.k === 'transferFrom' && old.caller !== home.owner) this.queued.push({ k: 'approveTok', caller: home.owner, adv: MS, args: [{ token_id: a.token_id, approval_info: { spender: { owner: old.caller, subaccount: a.spender_subaccount }, from_subaccount: home.subaccount, expires_at: null, memo: null, created_at_time: null } }], late: true });
        this.queued.push(again); return back;
      }
    }
    return again;
  }
  g_burst() { // many calls for one token within the rate window
    const r = this.rng, s = this.s, id = this.token(0.02), o = this.ownerOf(id); if (!o) return null;
    const kind = r.pick(['tok', 'tok', 'coll', 'mix']), n = r.range(5, 9); const ops = [];
    for (let i = 0; i < n; i++) {
      const adv = r.pick([0n, 0n, MS, 7n * MS, 12n * MS, 15n * MS - 1n, 15n * MS, 30n * MS]);
      const info = () => ({ spender: this.acct(this.user(), null), from_subaccount: o.subaccount, expires_at: null, memo: null, created_at_time: null });
      const k = kind === 'coll' ? r.pick(['ac', 'rc']) : r.pick(['x', 'x', 'a', 'r', 'f', ...(kind === 'mix' ? ['ac', 'other'] : [])]);
      if (k === 'x') ops.push({ k: 'transfer', caller: r.chance(0.5) ? o.owner : this.user(), adv, args: Array.from({ length: r.pick([1, 1, 2]) }, () => ({ to: this.acct(this.user(), null), token_id: id, memo: null, from_subaccount: null, created_at_time: null })) });
      else if (k === 'a') ops.push({ k: 'approveTok', caller: o.owner, adv, late: true, args: Array.from({ length: r.pick([1, 2]) }, () => ({ token_id: id, approval_info: info() })) });
      else if (k === 'r') ops.push({ k: 'revokeTok', caller: o.owner, adv, args: Array.from({ length: r.pick([1, 3]) }, () => ({ spender: null, from_subaccount: o.subaccount, token_id: id, memo: null, created_at_time: null })) });
      else if (k === 'f') ops.push({ k: 'transferFrom', caller: o.owner, adv, args: [{ spender_subaccount: o.subaccount, from: o, to: this.acct(this.user(), null), token_id: id, memo: null, created_at_time: null }] });
      else if (k === 'ac') ops.push({ k: 'approveColl', caller: o.owner, adv, late: true, args: [{ approval_info: info() }] });
      else if (k === 'rc') ops.push({ k: 'revokeColl', caller: o.owner, adv, args: Array.from({ length: r.pick([1, 2]) }, () => ({ spender: null, from_subaccount: o.subaccount, memo: null, created_at_time: null })) });
      else { const id2 = this.token(0); const o2 = this.ownerOf(id2); ops.push({ k: 'transfer', caller: o2 ? o2.owner : this.user(), adv, args: [{ to: this.acct(this.user(), null), token_id: id2, memo: null, from_subaccount: null, created_at_time: null }] }); }
    }
    if (r.chance(0.15) && this.p.upgrade) ops.splice(r.int(ops.length), 0, { k: 'upgrade', adv: 0n });
    this.queued.push(...ops.slice(1)); return ops[0];
  }
}
// fills creation times that must be "now" at execution
function late(op, now) { for (const a of op.args || []) if (a.approval_info && a.approval_info.created_at_time === null) a.approval_info.created_at_time = now + BigInt(op.adv || 0n); return op; }
module.exports = { Gen, PROFILES, SUBS, randInit, value, metadata, late };
