'use strict';
// The index canister against the ledger's own log: completeness, queries, faults and upgrades.
const { Session, SEC, MS, U64 } = require('./ledger');
const { World } = require('../sim/replica');
const G = require('./gen');
const { T, encode, decode, Account, Version, PERMS } = require('../sim/core');
const P = require('../sim/principal');
const { Violation, js, tag, canonV, mapGet, sha } = require('./util');

const WAcc = Account;
const IndexType = T.variant({ Account: WAcc, BlockType: T.text, TokenId: T.nat });
const SortBy = T.variant({ Ascending: T.null, Descending: T.null });
const GetArgs = T.record({ start: T.nat64, length: T.nat64, filters: T.vec(IndexType), sort_by: T.opt(SortBy) });
const InitArg = T.variant({ Init: T.record({ test_mode: T.bool, version: Version, commit_hash: T.text, authorized_principals: T.vec(T.principal), ledger_canister_id: T.principal }), Upgrade: T.record({ version: Version, commit_hash: T.text }) });
const BT = ['7mint', '7burn', '7xfer', '7update_token', '37approve', '37approve_coll', '37revoke', '37revoke_coll', '37xfer'];
const F = { reject: { reject: [2, 'injected: unavailable'] }, rejectSys: { reject: [1, 'injected: system fatal'] }, lose: { lose: [5, 'injected: answer lost'] }, unknown: { lose: [6, 'injected: outcome unknown'] }, garbage: { garble: true } };
const MIN = 60n * SEC, DAY = 86_400n * SEC;

class IndexRun {
  constructor(env, spec) {
    this.env = env; this.rng = env.rng; this.n = env.counters; this.spec = spec; const rng = this.rng; this.log = env.log = [];
    const subs = rng.chance(0.4) ? G.SUBS : [null];
    const init = G.randInit(rng, { small: 0.06 });
    if (spec.bulk) for (const k of ['supply_cap', 'max_update_batch_size', 'max_query_batch_size', 'tx_window']) delete init[k];
    this.s = new Session({ rng, wasm: env.wasm('core_nft', spec.build || 'prod'), init, subs, counters: {}, knowns: [], quickUpgrade: true, world: spec.world });
    env.session = null; this.w = this.s.w; this.gen = new G.Gen(this.s, 'base', { noArchive: true, weights: { burst: 0, time: 0, replay: 1, upgrade: 0, updateMeta: 9, revokeColl: 9, approveColl: 12 } });
    this.faulted = false; this.upgraded = false; this.slow = false; this.last = 0n; this.archived = false; this.held = new Set(); this.ups = 0;
    this.w.hold = m => this.held.size > 0 && this.held.has(m.seq);
    this.w.fault = m => this.inject(m); this.w.refuseCall = (self, pnd) => this.refuse(self, pnd);
    this.w.onMsg = m => { if (m.type === 'resp' && m.to === this.id) this.answers = (this.answers || 0) + 1; };
  }
  cnt(k, d = 1) { this.n[k] = (this.n[k] || 0) + d; }
  note(x) { this.log.push(x); this.cnt('moves'); }
  tags(...t) { return [...new Set([...t, ...(this.faulted || this.upgraded || this.slow || this.archived ? ['I03'] : [])])]; }
  bad(tags, what, detail = {}) { throw new Violation(tags, what, { ...detail, recent: this.log.slice(-12) }); }
  get blocks() { return this.s.blocks; }
  get len() { return BigInt(this.s.blocks.length); }
  installIndex() {
    this.ctl = P.user('controller'); this.id = this.w.createCanister([this.ctl]); this.wasm = this.env.wasm('index_icrc7', this.spec.build || 'prod');
    const r = this.w.install(this.id, this.wasm, encode([InitArg], [{ Init: { test_mode: this.rng.chance(0.5), version: { major: 0, minor: 0, patch: 1 }, commit_hash: 'h', authorized_principals: this.rng.chance(0.5) ? [this.ctl] : [], ledger_canister_id: this.s.c.id } }]), this.ctl);
    if (!r.ok) this.bad(['I03', 'X02', 'I01'], 'the index cannot be started: ' + r.trap);
    this.w.run(); this.note('index installed at log length ' + this.len);
  }
  upgradeIndex() {
    if (this.held.size || this.w.queue.length) return;
    const before = this.status();
    const r = this.w.upgrade(this.id, this.wasm, encode([InitArg], [{ Upgrade: { version: { major: 0, minor: 0, patch: (this.ups++, this.rng.pick([1 + this.ups, this.ups, 1, 0])) }, commit_hash: 'u' } }]), this.ctl);
    if (!r.ok) this.bad(['I03', 'X01', 'X02'], 'the index cannot be upgraded: ' + r.trap);
    this.w.run(); this.upgraded = true; this.cnt('index upgrades'); this.note('index upgraded');
    const after = this.status(); if (after !== before) this.bad(['I03', 'X01'], 'an upgrade of the index moved the last block from ' + before + ' to ' + after);
    this.q('ledger_id', ['I03'], r2 => { if (r2.ledger_id !== this.s.c.id) this.bad(['I03', 'X01'], 'after an upgrade the index names another ledger', { r2: js(r2) }); });
  }
  q(m, tags, f) { const r = this.w.query(this.id, m, encode([T.null], [null]), this.s.users[0]); if (!r.reply) this.bad(['X02', ...tags], 'index query ' + m + ' failed: ' + js(r.reject)); return f(decode(r.reply)[0]); }
  status() { return this.q('status', ['I03'], r => { const l = BigInt(r.last_block_id); this.cnt('status reads'); if (l < this.last) this.bad(['I03'], 'the last indexed block moved back from ' + this.last + ' to ' + l); if (l > this.len) this.bad(['I03', 'I01'], 'the index claims ' + l + ' blocks of a log of ' + this.len); this.last = l; return l; }); }
  // ---- faults
  inject(m) {
    const pl = this.plan; if (!pl || pl.mode === 'refuse' || m.from !== this.id) return null;
    if (pl.to && (pl.to === 'ledger') !== (m.to === this.s.c.id)) return null;
    if (pl.skip > 0) { pl.skip--; return null; } if (pl.times <= 0) return null;
    pl.times--; this.hits++; this.faulted = true; this.cnt('faults: ' + pl.mode + (m.to === this.s.c.id ? ' of a ledger fetch' : ' of an archive fetch')); return F[pl.mode];
  }
  refuse(self) { const pl = this.plan; if (!pl || pl.mode !== 'refuse' || self.id !== this.id) return false; if (pl.skip > 0) { pl.skip--; return false; } if (pl.times <= 0) return false; pl.times--; this.hits++; this.faulted = true; this.cnt('faults: refused call'); return true; }
  // ---- moves
  ops(n) { for (let i = 0; i < n; i++) this.s.step(G.late(this.gen.next(), this.s.now)); this.cnt('ledger operations', n); this.note('ledger ops ' + n + ' -> ' + this.len); }
  bulk(n) { for (let i = 0; i < n; i++) this.s.step({ k: 'mint', adv: 150n * MS, caller: this.s.ctl, reqs: Array.from({ length: 4 }, () => ({ token_owner: this.s.acct(this.rng.pick(this.s.users), this.rng.pick(this.s.subs)), metadata: this.rng.chance(0.2) ? G.metadata(this.rng) : [], memo: null })) }); this.cnt('ledger operations', n); this.note('bulk mints ' + n + ' -> ' + this.len); }
  tick(n = 1) { for (let i = 0; i < n; i++) { this.w.elapse(MIN); this.status(); } this.note('ticks ' + n + ' -> ' + this.last); }
  faultyTicks() {
    const r = this.rng; this.hits = 0; this.plan = { mode: r.pick([...Object.keys(F), 'refuse']), skip: r.int(3), times: r.pick([1, 1, 2, 5]), to: r.pick([null, null, 'ledger', 'archive']) }; const mode = this.plan.mode;
    const k = r.range(1, 4); for (let i = 0; i < k; i++) { this.w.elapse(MIN); this.status(); if (r.chance(0.3)) this.someQueries(1, true); if (r.chance(0.3)) this.ops(1); }
    this.plan = null; this.note('faulty ticks ' + k + ' ' + mode + ' hits ' + this.hits + ' -> ' + this.last);
  }
  // runs overlap: answers to the index are kept back while further runs start and the log grows
  overlap() {
    const r = this.rng; const before = this.last; let pend = 0;
    this.w.hold = m => (m.type === 'resp' && m.to === this.id && !this.free.has(m.seq)); this.free = new Set(); this.slow = true;
    const k = r.range(2, 5);
    for (let i = 0; i < k; i++) {
      this.w.elapse(MIN); const waiting = this.w.queue.filter(m => m.type === 'resp' && m.to === this.id && !this.free.has(m.seq));
      pend = Math.max(pend, waiting.length); this.status();
      if (r.chance(0.4)) this.ops(r.range(1, 3));
      if (waiting.length && r.chance(0.5)) { this.free.add(r.pick(waiting).seq); this.w.run(); this.status(); }
      if (r.chance(0.3)) { const L = this.last, f = this.randFilters(); const h = this.w.submit(this.id, 'get_blocks', encode([GetArgs], [{ start: 0n, length: 1000n, filters: f, sort_by: null }]), r.pick(this.s.users)); this.w.run(); this.late = this.late || []; this.late.push({ h, f, L }); }
    }
    // release in a random order
    for (let g = 0; g < 500; g++) { const waiting = this.w.queue.filter(m => m.type === 'resp' && m.to === this.id && !this.free.has(m.seq)); if (!waiting.length) break; this.free.add(r.pick(waiting).seq); this.w.run(); this.status(); if (r.chance(0.1)) { this.w.elapse(MIN); } }
    this.w.hold = null; this.w.run();
    for (const { h, f, L } of this.late || []) { if (!h.done) this.bad(['I02', 'X02'], 'an index query never got an answer'); this.judge({ start: 0n, length: 1000n, filters: f, sort_by: null }, h.res, L, false); } this.late = null;
    if (pend > 1) this.cnt('overlapping runs'); this.note('overlap ' + k + ' pending ' + pend + ' ' + before + ' -> ' + this.last);
    this.status();
  }
  archive() { // let the ledger move its older blocks away
    const n = this.rng.range(1, 2); this.w.elapse(BigInt(n) * 600n * SEC + 130n * SEC); const a = this.s.q(this.ctl, 'icrc3_get_archives', ['L04']); if (a && a.length) { this.archived = true; this.cnt('archived logs'); }
    this.status(); this.note('time for archiving -> ' + js(a).slice(0, 100));
  }
  day() { for (let i = 0; i < 25; i++) { this.w.advance(3600n * SEC); this.w.fireTimers(); this.w.run(); } this.status(); this.cnt('days'); this.note('a day'); }
  // queries that have to fetch from the ledger and its archives while some of those calls fail: the truth or an error
  coldQueries() {
    const r = this.rng; this.day(); if (!this.archived) { const a = this.s.q(this.ctl, 'icrc3_get_archives', ['L04']); if (a && a.length) { this.archived = true; this.cnt('archived logs'); } }
    const k = r.range(1, 4);
    for (let i = 0; i < k; i++) {
      const l = Number(this.last), filters = r.chance(0.5) ? [] : [this.randFilter()]; const start = r.chance(0.6) ? 0n : BigInt(r.int(l + 1));
      this.plan = { mode: r.pick([...Object.keys(F), 'refuse']), skip: r.pick([0, 0, 0, 1, 2]), times: r.pick([1, 1, 2, 99]), to: r.pick([null, 'archive', 'archive', 'ledger']) };
      this.call({ start, length: r.chance(0.6) ? BigInt(l + 1) : BigInt(r.range(1, 12)), filters, sort_by: r.pick([null, 'Ascending', 'Descending']) }, true); this.cnt(this.hits ? 'cold queries with faults' : 'cold queries');
      this.plan = null;
    }
    this.note('cold queries ' + k);
  }
  catchUp() {
    this.plan = null; const need = Number((this.len - this.last) / 100n) + 3; let stuck = 0;
    for (let i = 0; i < need + 3 && this.last < this.len; i++) { const b = this.last; this.w.elapse(MIN); this.status(); if (this.last === b) stuck++; }
    if (this.last !== this.len) this.bad(this.tags('I01'), 'the index stays at block ' + this.last + ' of ' + this.len + ' although every call succeeds', { next: js(this.blocks[Number(this.last)].b).slice(0, 1500) });
    this.cnt('caught up'); this.note('caught up ' + this.last);
  }
  // ---- oracle
  field(b, f) { const tx = mapGet(b.Map, 'tx'); return tx && tx.Map ? mapGet(tx.Map, f) : undefined; }
  matches(i, f) {
    const b = this.blocks[i].b, k = tag(f);
    if (k === 'BlockType') return mapGet(b.Map, 'btype').Text === f.BlockType;
    if (k === 'TokenId') { const t = this.field(b, 'tid'); return !!t && BigInt(t.Nat) === BigInt(f.TokenId); }
    const a = f.Account; return ['from', 'to', 'spender'].some(x => { const v = this.field(b, x); return v && v.Text === a.owner; });
  }
  expected(filters, L) { const o = []; for (let i = 0; i < Number(L); i++) if (filters.every(f => this.matches(i, f))) o.push(BigInt(i)); return o; }
  strict(filters) { return filters.every(f => tag(f) !== 'Account' || !f.Account.subaccount); }
  text(i) { const b = this.blocks[i]; return b.canon || (b.canon = canonV(b.b)); }
  randFilter() {
    const r = this.rng;
    switch (r.weighted({ acc: 5, type: 4, tok: 4 })) {
      case 'acc': { const p = r.chance(0.9) ? r.pick([...this.s.users, this.ctl]) : r.pick([P.ANON, P.user('nobody'), this.s.c.id]); return { Account: { owner: p, subaccount: r.chance(0.92) ? null : r.pick(G.SUBS) } }; }
      case 'type': return { BlockType: r.chance(0.93) ? r.pick(BT) : r.pick(['', '7MINT', 'xfer', '7xfer ', 'z'.repeat(300)]) };
      default: { const k = [...this.s.tokens.keys()]; return { TokenId: r.chance(0.9) && k.length ? BigInt(r.pick(k)) : r.pick([0n, this.s.next, U64, U64 + 1n, (1n << 64n) + 1n, 1n << 100n]) }; }
    }
  }
  randFilters() { const r = this.rng, n = Number(r.weighted({ 1: 6, 2: 5, 3: 2, 4: 0.5 })), l = []; for (let i = 0; i < n; i++) l.push(r.chance(0.05) && l.length ? l[0] : this.randFilter()); return l; }
  call(a, faulty) {
    const L = this.status(); this.hits = 0; const r = this.w.update(this.id, 'get_blocks', encode([GetArgs], [a]), this.rng.pick([...this.s.users, P.ANON]));
    return this.judge(a, r, L, faulty && this.hits > 0);
  }
  judge(a, r, L, faulty) {
    const show = { args: js(a), indexed: String(L), log: String(this.len) };
    if (!r.reply) { if (faulty) { this.cnt('queries failed by a fault'); return null; } this.bad(['I02', 'X02', 'I01', ...(this.faulted ? ['I03'] : [])], 'an index query failed: ' + js(r.reject), show); }
    const d = decode(r.reply)[0], ids = d.blocks.map(b => BigInt(b.id)); this.cnt('index queries');
    const after = this.status();
    if (BigInt(d.total) < L || BigInt(d.total) > after) this.bad(this.tags('I02'), 'the index reports a total of ' + d.total + ', between ' + L + ' and ' + after + ' blocks are indexed', show);
    for (const b of d.blocks) { const i = Number(b.id); if (i >= this.blocks.length || i < 0) this.bad(this.tags('I01', 'I02'), 'the index invented block ' + b.id, show); if (canonV(b.block) !== this.text(i)) this.bad(this.tags('I01'), 'block ' + b.id + ' of the index differs from the ledger', { ...show, is: js(b.block).slice(0, 700), should: js(this.blocks[i].b).slice(0, 700) }); this.cnt('blocks compared'); }
    const desc = a.sort_by && tag(a.sort_by) === 'Descending', start = BigInt(a.start), length = BigInt(a.length), end = start + length;
    for (let i = 1; i < ids.length; i++) if (desc ? ids[i] >= ids[i - 1] : ids[i] <= ids[i - 1]) this.bad(this.tags(ids[i] === ids[i - 1] ? 'I01' : 'I02', 'I02'), 'the answer is not in ' + (desc ? 'descending' : 'ascending') + ' order or repeats a block', { ...show, ids: ids.map(String).slice(0, 40) });
    if (BigInt(ids.length) > length) this.bad(['I02'], 'a page of ' + length + ' holds ' + ids.length + ' blocks', show);
    if (a.filters.length) {
      const all = this.expected(a.filters, L), page = all.slice(start > 1000000n ? all.length : Number(start), end > 1000000n ? all.length : Number(end)); if (desc) page.reverse();
      if (all.length) this.cnt('queries with matches'); if (a.filters.length > 1 && all.length) this.cnt('combined filters with matches');
      if (!this.strict(a.filters)) { for (const x of ids) if (!all.includes(x)) this.bad(this.tags('I01', 'I02'), 'the index lists block ' + x + ', which does not match', show); return ids; }
      if (js(ids) !== js(page)) {
        const missing = page.filter(x => !ids.includes(x)), extra = ids.filter(x => !all.includes(x)); const single = a.filters.length === 1;
        const t = extra.length || single ? ['I01', 'I02'] : ['I02'];
        this.bad(this.tags(...(missing.length && !single ? ['I02', 'I01'] : t)), 'the index answers a query with filters wrongly: ' + (missing.length ? 'missing ' + missing.slice(0, 6) : extra.length ? 'not matching ' + extra.slice(0, 6) : 'not the requested page'), { ...show, is: ids.map(String).slice(0, 30), should: page.map(String).slice(0, 30) });
      }
      for (const f of a.filters) if (tag(f) === 'BlockType') this.cnt('type ' + f.BlockType.slice(0, 14) + (all.length ? ' found' : ' none'));
      return ids;
    }
    // a range of the log
    for (let i = 1; i < ids.length; i++) if ((desc ? ids[i - 1] - ids[i] : ids[i] - ids[i - 1]) !== 1n) this.bad(['I02'], 'a range of the log has a gap', { ...show, ids: ids.map(String).slice(0, 40) });
    const set = new Set(ids.map(String)), need = (x, y) => { for (let i = x; i < y; i++) if (!set.has(String(i))) this.bad(this.tags('I02', 'I01'), 'a query without filters misses block ' + i, { ...show, is: ids.map(String).slice(0, 40) }); };
    if (desc) { need(length > L ? 0n : L - length, L); if (ids.length && length <= L && ids[0] !== L - 1n && ids[0] < L - 1n) this.bad(['I02'], 'descending order does not start at the most recent block', show); }
    else { if (ids.length && ids[0] !== start) this.bad(['I02'], 'a range of the log does not start where asked', { ...show, ids: ids.map(String).slice(0, 10) }); need(start, end < L ? end : L); }
    this.cnt('range queries'); return ids;
  }
  someQueries(n, faulty) {
    const r = this.rng;
    for (let i = 0; i < n; i++) {
      const filters = r.chance(0.22) ? [] : this.randFilters(); const l = Number(this.last);
      const num = () => BigInt(r.weighted({ small: 5, mid: 3, edge: 1.5, huge: 1 }) === 'small' ? r.int(6) : r.chance(0.6) ? r.int(l + 4) : r.chance(0.5) ? r.pick([99, 100, 101, 127, 128, 200]) : r.pick([U64, U64 - 1n, 1n << 32n, (1n << 32n) + 2n, 1n << 63n, BigInt(l), BigInt(l + 1)]));
      const a = { start: num(), length: r.chance(0.3) ? 1000n : num(), filters, sort_by: r.pick([null, 'Ascending', 'Descending']) };
      if (a.start > 100000n && !filters.length) this.cnt('extreme ranges');
      this.call(a, faulty);
    }
  }
  pages() { // successive pages cover every match once
    const f = this.randFilters(), k = BigInt(this.rng.range(1, 7)), desc = this.rng.chance(0.3); const L = this.status(), all = this.expected(f, L); if (!this.strict(f)) return;
    const seen = []; for (let i = 0n; i < BigInt(all.length) + k && i < 60n * k; i += k) { const ids = this.call({ start: i, length: k, filters: f, sort_by: desc ? 'Descending' : null }, false); if (desc) ids.reverse(); seen.push(...ids); }
    if (seen.length && BigInt(all.length) <= 60n * k) { if (js(seen) !== js(all)) this.bad(['I02', 'I01'], 'successive pages do not cover the matches', { filters: js(f), seen: seen.map(String), all: all.map(String) }); this.cnt('page walks'); }
  }
  // every key there is, compared completely
  auditAll() {
    const L = this.status(), keys = [];
    const acc = new Set(), toks = new Set();
    for (let i = 0; i < Number(L); i++) { for (const f of ['from', 'to', 'spender']) { const v = this.field(this.blocks[i].b, f); if (v) acc.add(v.Text); } const t = this.field(this.blocks[i].b, 'tid'); if (t) toks.add(String(t.Nat)); }
    for (const p of acc) keys.push({ Account: { owner: p, subaccount: null } }); for (const t of BT) keys.push({ BlockType: t });
    const tl = [...toks]; for (const t of tl.length > 15 ? this.rng.shuffle(tl).slice(0, 15) : tl) keys.push({ TokenId: BigInt(t) });
    for (const f of keys) { this.call({ start: 0n, length: 100000n, filters: [f], sort_by: this.rng.pick([null, 'Descending']) }, false); this.cnt('complete keys'); }
    this.call({ start: 0n, length: L, filters: [], sort_by: this.rng.pick([null, 'Descending']) }, false);
    this.env.distinct.add(sha(keys.length + '/' + L + '/' + [...acc].length + js(this.log.slice(-6))));
  }
}
function index(spec, env) {
  const x = new IndexRun(env, spec), r = env.rng;
  const pre = spec.late ? r.range(5, 25) : r.int(6); x.ops(pre + 2); if (spec.bulk) { x.bulk(r.range(26, 60)); }
  if (spec.late && r.chance(0.5)) { x.ctl = P.user('controller'); x.w.elapse(1400n * SEC); if ((x.s.q(x.ctl, 'icrc3_get_archives', ['L04']) || []).length) { x.archived = true; x.cnt('archived logs'); } }
  x.installIndex();
  const W = { ops: 10, tick: 8, queries: 8, pages: 2, faulty: 0, overlap: 0, upgrade: 1, archive: 0.7, day: 0.25, ledgerUp: 0.5, ...(spec.weights || {}) };
  for (let k = 0; k < spec.steps; k++) {
    switch (r.weighted(W)) {
      case 'ops': x.ops(r.range(1, 6)); break; case 'tick': x.tick(r.range(1, 3)); break;
      case 'queries': x.someQueries(r.range(1, 4), false); break; case 'pages': x.pages(); break;
      case 'faulty': x.faultyTicks(); break; case 'overlap': x.overlap(); break; case 'upgrade': x.upgradeIndex(); break;
      case 'archive': x.archive(); break; case 'day': x.day(); break; case 'cold': x.coldQueries(); break;
      case 'ledgerUp': x.s.step({ k: 'upgrade', adv: 0n }); x.upgraded = true; x.cnt('ledger upgrades'); break;
    }
    if (env.samples.length < 2 && k > 5) env.samples.push({ move: x.log[x.log.length - 1], indexed: String(x.last), log: String(x.len) });
  }
  x.catchUp(); x.auditAll(); x.someQueries(6, false); x.pages();
  if (r.chance(0.3)) { x.upgradeIndex(); x.auditAll(); }
}
module.exports = { index, IndexRun, IndexType, GetArgs, InitArg };
