'use strict';
// Reference model of the ledger (core_nft) and the monitor that compares every answer of the
// real canister, and its complete observable state, with it.
const { World } = require('../sim/replica');
const { Core, PERMS, plain } = require('../sim/core');
const { decode, encode, T } = require('../sim/candid');
const P = require('../sim/principal');
const { Violation, sha, js, ZERO32, akey, isDefault, tag, canonV, canonM, mapGet, hashV } = require('./util');

const MS = 1_000_000n, SEC = 1_000_000_000n, U64 = (1n << 64n) - 1n;
const DEF = { tx_window: 10_000_000_000n, permitted_drift: 50_000_000n, take: 100n, max_take: 100n, batch: 100n, query: 100n, cap: 10_000n, memo: 1_000_000n, appr: 10n, revoke: 10n };
const SETTINGS = ['description', 'symbol', 'name', 'logo', 'supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'max_take_value', 'default_take_value', 'max_memo_size', 'atomic_batch_transfers', 'tx_window', 'permitted_drift', 'max_canister_storage_threshold'];
const BTYPES = ['7mint', '7burn', '7xfer', '7update_token', '37approve', '37approve_coll', '37revoke', '37revoke_coll', '37xfer'];
const S1 = Buffer.alloc(32, 0x11), S2 = (() => { const b = Buffer.alloc(32); b[31] = 1; return b; })();
const intOut = v => { const k = tag(v), x = v[k]; return k === 'Int' ? BigInt(x) > (1n << 127n) - 1n || BigInt(x) < -(1n << 127n) : k === 'Array' ? x.some(intOut) : k === 'Map' ? x.some(y => intOut(y[1])) : false; };
const bigInt = m => m.some(([, v]) => intOut(v)); // integers the log cannot hash: may be refused
const sat = x => (x > U64 ? U64 : x);
const big = v => (v === null || v === undefined ? null : BigInt(v));
const bufEq = (a, b) => (a === null || a === undefined ? b === null || b === undefined : b !== null && b !== undefined && Buffer.compare(Buffer.from(a), Buffer.from(b)) === 0);
const short = a => a.owner.slice(0, 5) + (a.subaccount ? '.' + Buffer.from(a.subaccount).toString('hex').slice(0, 2) + Buffer.from(a.subaccount).toString('hex').slice(-2) : '');

const OPTAGS = { transfer: ['C02'], transferFrom: ['C02'], burn: ['C02'], mint: ['M01', 'D03'], approveTok: ['C04'], approveColl: ['C04'], revokeTok: ['C05'], revokeColl: ['C05'], updateMeta: ['M03'], updateColl: ['M04'], grant: ['P02'], revoke: ['P02'], upgrade: ['X01'] };
const APPRTAGS = { transfer: ['C03'], transferFrom: ['C03'], burn: ['C03'], approveTok: ['C04'], approveColl: ['C04'], revokeTok: ['C05'], revokeColl: ['C05'], upgrade: ['X01'], mint: ['C04'], time: ['C04'] };

class Session {
  // o: {rng, wasm, init, controller, users, counters, subs (use subaccounts), archiveFollow}
  constructor(o) {
    this.o = o; this.rng = o.rng; this.n = o.counters; this.knowns = o.knowns || []; this.trace = []; this.distinct = o.distinct; this.samples = o.samples;
    this.w = o.world || new World({ time: o.time }); this.ctl = P.user('controller');
    this.users = o.users || ['alice', 'bob', 'carol', 'dave'].map(P.user);
    this.subs = o.subs || [null];
    const init = this.init = o.init || {};
    this.c = Core.deploy(this.w, o.wasm, this.ctl, init);
    if (this.c.trap) { if (o.expectTrap) { this.dead = true; return; } throw new Violation(['X02', 'M04'], 'the canister cannot be started with well-formed settings', { init: js(init), trap: this.c.trap }); }
    this.tokens = new Map(); this.next = 1n; this.burnt = new Set(); this.tok = new Map(); this.coll = new Map(); this.endedTok = new Map(); this.order = new Map(); this.endedColl = new Map(); this.everTok = new Map(); this.everColl = new Set();
    this.perms = new Map();
    for (const [p, l] of (init.permissions ? init.permissions.user_permissions : [])) this.perms.set(p, new Set(l.map(tag)));
    if (init.test_mode !== false) { if (!this.perms.has(this.ctl)) this.perms.set(this.ctl, new Set()); for (const p of PERMS) this.perms.get(this.ctl).add(p); }
    this.set = {}; for (const k of SETTINGS) this.set[k] = init[k] === undefined ? null : init[k];
    this.set.symbol = init.symbol === undefined ? 'SYM' : init.symbol; this.set.name = init.name === undefined ? 'Name' : init.name;
    for (const k of SETTINGS) if (typeof this.set[k] === 'number') this.set[k] = BigInt(this.set[k]);
    this.cmeta = new Map(); for (const [k, v] of init.collection_metadata || []) this.cmeta.set(k, v);
    const ai = init.approval_init || {};
    this.maxAppr = big(ai.max_approvals_per_token_or_collection); this.maxRevoke = big(ai.max_revoke_approvals);
    this.memory = init.tx_window === undefined || init.tx_window === null ? 0n : BigInt(init.tx_window) * MS; // how long the log remembers transactions
    this.queue = []; this.forgot = new Map(); this.rate = new Map();
    this.blocks = []; this.expBlocks = []; this.numConst = null; this.upgrades = 0; this.opn = 0; this.since = new Set(); this.subUsed = false;
    this.apprSeq = 0;
  }
  get now() { return this.w.time; }
  cnt(k, d = 1) { this.n[k] = (this.n[k] || 0) + d; }
  bad(tags, what, detail) { throw new Violation(tags, what, detail); }
  // ---------- calls
  u(caller, m, tags, ...args) {
    const r = this.c.u(caller, m, ...args); this.cnt('updates');
    this.last = { m, caller, r };
    return r;
  }
  q(caller, m, tags, ...args) {
    const r = this.c.q(caller, m, ...args); this.cnt('queries');
    if (r.reject) this.bad(['X02', ...tags], 'query ' + m + ' failed: ' + r.reject[1], { args: js(args).slice(0, 600) });
    return r.ok;
  }
  adv(ns) {
    ns = BigInt(ns); if (ns === 0n) return;
    if (ns < SEC) this.w.advance(ns); else if (ns < 3600n * SEC) this.w.elapse(ns); else { this.w.advance(ns); this.w.fireTimers(); this.w.run(); }
    this.since.add('time');
  }
  // ---------- settings as enforced
  lim(k, d) { const v = this.set[k]; return v === null ? d : BigInt(v); }
  get window() { return sat(this.lim('tx_window', DEF.tx_window)); }
  get drift() { return sat(this.lim('permitted_drift', DEF.permitted_drift)); }
  get maxBatch() { return this.lim('max_update_batch_size', DEF.batch); }
  get maxQuery() { return this.lim('max_query_batch_size', DEF.query); }
  get maxTake() { return this.lim('max_take_value', DEF.max_take); }
  get defTake() { return this.lim('default_take_value', DEF.take); }
  get maxMemo() { return this.lim('max_memo_size', DEF.memo); }
  get cap() { return this.lim('supply_cap', DEF.cap); }
  get apprLim() { return this.maxAppr === null ? DEF.appr : this.maxAppr; }
  get revLim() { return this.maxRevoke === null ? DEF.revoke : this.maxRevoke; }
  acct(owner, sub) { return { owner, subaccount: sub || null }; }
  supply() { return BigInt(this.tokens.size); }
  balance(k) { let n = 0; for (const t of this.tokens.values()) if (akey(t.owner) === k) n++; return n; }
  ownsAny(p) { for (const t of this.tokens.values()) if (t.owner.owner === p) return true; return false; }
  hasPerm(p, x) { return this.perms.has(p) && this.perms.get(p).has(x); }
  live(e) { return e.exp === null || e.exp > this.now; }
  approvedTok(id, sk) { const m = this.tok.get(id); return !!(m && m.has(sk) && this.live(m.get(sk))); }
  approvedColl(ok, sk) { const m = this.coll.get(ok); return !!(m && m.has(sk) && this.live(m.get(sk))); }
  // ---------- rate limit
  rateFull(id) { const h = (this.rate.get(id) || []).filter(t => this.now - t < 60n * MS); this.rate.set(id, h); return h.length >= 5; }
  rateCount(id) { this.rate.get(id).push(this.now); }
  // ---------- memory of transactions
  // purge as a log attempt would; returns whether the attempt may be throttled
  logAttempt() { let n = 0; while (this.queue.length && this.queue[0].ts + this.memory + 100n * MS < this.now && n < 25) { const e = this.queue.shift(); this.forgot.set(e.key, e); n++; } return n === 0 && this.queue.length >= 5; }
  remember(key, full) { this.queue.push({ ts: this.now, key, full }); }
  findDup(key) { return this.queue.find(e => e.key === key) || null; }
  // ---------- expected blocks
  expectBlock(b) { this.expBlocks.push(Object.assign({ ts: this.now }, b)); }
  num(tags, n, what) { // the number returned with success must identify the block just added
    const id = BigInt(this.blocks.length + this.expBlocks.length - 1), d = BigInt(n) - id;
    if (this.numConst === null && (d === 0n || d === 1n)) this.numConst = d;
    if (d !== this.numConst) this.bad(['L01', ...tags], what + ' returned transaction number ' + n + ' for block ' + id + (this.numConst === null ? '' : ' although numbers are block id + ' + this.numConst), {});
  }
  isNext(n) { const d = BigInt(n) - BigInt(this.blocks.length + this.expBlocks.length); return this.numConst === null ? d === 0n || d === 1n : d === this.numConst; }
  // ---------- timing rules
  timing7(t) { if (t > sat(this.now + this.drift)) return 'CreatedInFuture'; const low = this.now - sat(this.window + this.drift); if (low > 0n && t < low) return 'TooOld'; return null; }
  timing37(t) { if (t > sat(this.now + this.drift)) return 'CreatedInFuture'; if (sat(t + this.window) < this.now) return 'TooOld'; return null; }
  memoKey(m) { return m ? Buffer.from(m).toString('hex') : '-'; }
  // ---------- judging one item
  // reasons: [{tags, why, variant?}] each forbids success; may: failure is also acceptable; tagsOk: refuted by an unexpected refusal
  judge(kind, item, res, reasons, may, tagsOk) {
    const isOk = res && tag(res) === 'Ok';
    if (!isOk && !(res && tag(res) === 'Err')) this.bad(['X02', ...tagsOk], kind + ': malformed answer', { item: js(item), res: js(res) });
    this.cnt(kind + (isOk ? '.ok' : '.err')); this.itemOk += isOk ? 1 : 0; this.itemErr += isOk ? 0 : 1;
    if (isOk) {
      if (reasons.length) this.bad(reasons.flatMap(r => r.tags), kind + ' succeeded although ' + reasons.map(r => r.why).join(', '), { item: js(item), res: js(res), now: this.now.toString() });
      return true;
    }
    const e = res.Err, v = tag(e);
    for (const r of reasons) this.cnt('refused: ' + r.key);
    if (!reasons.length && !may) {
      const msg = js(e); const t = [...tagsOk, 'X02'];
      if (v === 'TooOld' || v === 'CreatedInFuture') t.push('D02');
      if (/rate limit/i.test(msg)) t.push('D04'); if (/memo/i.test(msg)) t.push('D03');
      if (/duplicate/i.test(msg)) t.push('D01', 'L01'); if (/log|insert transaction/i.test(msg)) t.push('L01');
      this.bad(t, kind + ' refused although every condition for it holds: ' + msg, { item: js(item), now: this.now.toString() });
    }
    if (reasons.length === 1 && reasons[0].variant) {
      if (v !== reasons[0].variant) this.bad(['D02'], kind + ' with a creation time ' + reasons[0].why + ' answered ' + js(e) + ' instead of ' + reasons[0].variant, { item: js(item), now: this.now.toString() });
      if (v === 'CreatedInFuture' && BigInt(e[v].ledger_time) !== this.now) this.bad(['D02'], 'CreatedInFuture reports ledger time ' + e[v].ledger_time + ' at ' + this.now, { item: js(item) });
    }
    return false;
  }
  rejected(kind, r, tags, op) {
    if (r.reject) this.bad(['X02', ...tags, ...(/overflow|panicked|attempt to/i.test(r.reject[1]) ? ['X03'] : [])], kind + ' call failed: ' + r.reject[1], { op: js(op).slice(0, 1500), now: this.now.toString() });
    return r.ok;
  }
  timeReason(v) { return { tags: ['D02'], why: v === 'TooOld' ? 'older than the window' : 'beyond the permitted drift', key: v, variant: v }; }
  endTok(id, cause) { const m = this.tok.get(id); if (m) for (const sk of m.keys()) this.endedTok.set(id + '/' + sk, cause); this.tok.delete(id); this.everTok.delete(id); }
  causesTok(id, sk) { const c = this.endedTok.get(id + '/' + sk); return c ? [c] : []; }
  // ---------- operations
  op_transfer(op) {
    const r = this.rejected('icrc7_transfer', this.u(op.caller, 'icrc7_transfer', [], op.args), ['C02', 'D03'], op);
    if (!Array.isArray(r)) this.bad(['X02', 'D03'], 'icrc7_transfer: malformed answer', { r: js(r) });
    const n = op.args.length, max = this.maxBatch;
    if (n === 0) { if (r.length) this.bad(['D03'], 'an empty transfer batch got answers', { r: js(r) }); return; }
    const single = (why, tags) => { if (r.length !== 1 || !r[0] || tag(r[0]) !== 'Err') this.bad(tags, 'transfer batch accepted although ' + why, { op: js(op).slice(0, 1200), r: js(r) }); this.itemErr++; this.cnt('refused: ' + why); };
    if (this.set.atomic_batch_transfers && BigInt(n) > max) return single('it is larger than the batch size of an atomic ledger', ['D03', 'M04']);
    if (op.caller === P.ANON) {
      if (max > 0n && r.some(x => !x || tag(x) !== 'Err')) this.bad(['D03', 'C02'], 'an anonymous caller transferred', { op: js(op), r: js(r) });
      this.itemErr++; this.cnt('refused: anonymous'); return;
    }
    const take = BigInt(n) < max ? n : Number(max);
    if (r.length !== take) this.bad(['D03', 'M04'], 'a transfer batch of ' + n + ' items got ' + r.length + ' answers; the batch size is ' + max, { r: js(r) });
    for (let i = 0; i < take; i++) this.transferItem(op, op.args[i], r[i]);
  }
  transferItem(op, a, res) {
    const id = BigInt(a.token_id), k = id.toString(), t = this.tokens.get(k), reasons = []; this.touch.add(k);
    if (this.rateFull(k)) reasons.push({ tags: ['D04'], why: 'five calls for the token went through in the last 60 ms', key: 'rate' });
    else {
      this.rateCount(k);
      if (!t) reasons.push({ tags: ['C02', 'C01', 'M02'], why: 'the token does not exist', key: 'missing' });
      if (a.memo && BigInt(a.memo.length) > this.maxMemo) reasons.push({ tags: ['D03', 'M04'], why: 'the memo of ' + a.memo.length + ' bytes exceeds ' + this.maxMemo, key: 'memo' });
      if (t && t.owner.owner !== op.caller) reasons.push({ tags: ['C02'], why: 'the caller is not the owner', key: 'not owner' });
      if (a.to.owner === P.ANON) reasons.push({ tags: ['C02'], why: 'the recipient is anonymous', key: 'anon recipient' });
      if (t && akey(t.owner) === akey(a.to)) reasons.push({ tags: ['C02'], why: 'the recipient already owns the token', key: 'self' });
      if (a.created_at_time !== null) { const v = this.timing7(BigInt(a.created_at_time)); if (v) reasons.push(this.timeReason(v)); }
    }
    let may = false, dup = null, key, full;
    if (!reasons.length) {
      const subMis = a.from_subaccount && !bufEq(a.from_subaccount, t.owner.subaccount || ZERO32);
      may = this.logAttempt() || subMis;
      const ct = a.created_at_time === null ? this.now : BigInt(a.created_at_time);
      key = ['7xfer', k, t.owner.owner, a.to.owner, this.memoKey(a.memo), ct].join('/'); full = key + akey(t.owner) + akey(a.to);
      dup = this.findDup(key);
    }
    const isOk = res && tag(res) === 'Ok';
    if (dup && a.created_at_time !== null) {
      if (dup.full !== full) { this.cnt('collision'); if (!(isOk && this.isNext(res.Ok))) { this.itemErr++; return; } }
      else {
        this.cnt('replay refused');
        if (isOk && this.isNext(res.Ok)) this.bad(['D01'], 'a remembered transfer was executed again', { item: js(a), first: dup.ts.toString(), now: this.now.toString() });
        this.itemErr++; this.dupSeen = true; return;
      }
    } else if (dup) { if (!isOk || !this.isNext(res.Ok)) { this.cnt('same-instant repeat'); this.itemErr++; return; } }
    if (!this.judge('transfer', { caller: op.caller, ...a }, res, reasons, may, ['C02', 'D03'])) return;
    this.wasForgotten(key, a, 'transfer');
    this.expectBlock({ btype: '7xfer', tid: id, from: t.owner, to: a.to, memo: a.memo, cat: [a.created_at_time === null ? this.now : BigInt(a.created_at_time)] });
    this.num([], res.Ok, 'transfer'); this.remember(key, full);
    this.move(k, t, a.to, 'direct');
  }
  wasForgotten(key, a, what) {
    const f = this.forgot.get(key);
    if (f && a.created_at_time !== null && a.created_at_time !== undefined) { this.cnt('replay after memory'); this.knowns.push({ prop: 'D01', sig: 'replay-after-ledger-memory', what: 'a ' + what + ' submitted again ' + (this.now - f.ts) / MS + ' ms after it was logged is executed a second time: the log remembers transactions for ' + (this.memory / MS + 100n) + ' ms only, the transaction window is ' + this.window / MS + ' ms' }); }
  }
  move(k, t, to, how) {
    const from = t.owner, fk = akey(from);
    t.owner = to; this.endTok(k, 'C03'); this.touchA.add(fk); this.touchA.add(akey(to));
    if (how === 'onbehalf' && this.balance(fk) === 0) { const m = this.coll.get(fk); if (m) for (const sk of m.keys()) this.endedColl.set(fk + '/' + sk, 'C03'); this.coll.delete(fk); this.everColl.delete(fk); }
    else if (this.balance(fk) === 0 && this.coll.has(fk)) this.collOpt.add(fk);
  }
  get collOpt() { return this._co || (this._co = new Set()); } // accounts whose last token left directly: their collection approvals may end
  op_transferFrom(op) {
    const r0 = this.rejected('icrc37_transfer_from', this.u(op.caller, 'icrc37_transfer_from', [], op.args), ['C02'], op);
    const r = this.okList('icrc37_transfer_from', r0, op.args.length, ['C02']);
    op.args.forEach((a, i) => this.transferFromItem(op, a, r[i]));
  }
  okList(m, r, n, tags) {
    if (!r || tag(r) !== 'Ok' || !Array.isArray(r.Ok)) this.bad(['X02', ...tags], m + ' answered ' + js(r), {});
    if (r.Ok.length !== n) this.bad(['X02', ...tags], m + ' of ' + n + ' items got ' + r.Ok.length + ' answers', {});
    return r.Ok;
  }
  transferFromItem(op, a, res) {
    const id = BigInt(a.token_id), k = id.toString(), t = this.tokens.get(k), reasons = []; this.touch.add(k);
    const sp = this.acct(op.caller, a.spender_subaccount), sk = akey(sp);
    const isOk = res && tag(res) === 'Ok';
    let viaColl = false;
    if (this.rateFull(k)) reasons.push({ tags: ['D04'], why: 'five calls for the token went through in the last 60 ms', key: 'rate' });
    else {
      this.rateCount(k);
      if (a.created_at_time !== null) { const v = this.timing37(BigInt(a.created_at_time)); if (v) reasons.push(this.timeReason(v)); }
      if (!t) reasons.push({ tags: ['C02', 'C01'], why: 'the token does not exist', key: 'missing' });
      else {
        if (akey(a.from) === akey(a.to)) reasons.push({ tags: ['C02'], why: 'giver and recipient are the same', key: 'self' });
        if (a.to.owner === P.ANON) reasons.push({ tags: ['C02'], why: 'the recipient is anonymous', key: 'anon recipient' });
        if (akey(t.owner) !== akey(a.from)) reasons.push({ tags: ['C02', ...this.collCause(a.from, sk)], why: 'the named account does not own the token', key: 'wrong from' });
        const self = sk === akey(a.from), at = this.approvedTok(k, sk), ac = this.approvedColl(akey(t.owner), sk);
        viaColl = !at && ac;
        if (!self && !at && !ac) {
          const c = new Set(this.causesTok(k, sk)); for (const x of this.collCause(t.owner, sk)) c.add(x);
          const m = this.tok.get(k), cm = this.coll.get(akey(t.owner)); if ((m && m.has(sk)) || (cm && cm.has(sk))) c.add('C04');
          let c06 = false; // did the approval query say so, too?
          if (isOk) c06 = true;
          reasons.push({ tags: ['C02', ...c, ...(c06 ? ['C06'] : []), ...(c.size ? [] : ['C04'])], why: 'the spender holds no approval' + (c.size ? ' any more (' + [...c].join(' ') + ')' : ''), key: 'unauthorised' + (c.size ? ' after ' + [...c].join('+') : '') });
        }
      }
    }
    let may = false, key = null, full = null;
    if (!reasons.length) {
      may = this.logAttempt();
      key = ['37xfer', k, a.from.owner, a.to.owner, op.caller, this.memoKey(a.memo), a.created_at_time === null ? '-' : BigInt(a.created_at_time)].join('/'); full = key + akey(a.from) + akey(a.to) + sk;
      const dup = this.findDup(key);
      if (dup) {
        if (dup.full === full && a.created_at_time !== null) {
          this.cnt('replay refused');
          if (isOk && this.isNext(res.Ok)) this.bad(['D01'], 'a remembered transfer on behalf was executed again', { item: js(a), first: dup.ts.toString(), now: this.now.toString() });
          this.itemErr++; this.dupSeen = true; return;
        }
        if (!isOk || !this.isNext(res.Ok)) { this.cnt('collision'); this.itemErr++; return; }
      }
    }
    if (!this.judge('transferFrom', { caller: op.caller, ...a }, res, reasons, may, ['C02', 'C04', 'C06', ...(viaColl ? ['C03'] : [])])) { if (reasons.length && t) this.dropExpired(k, t, sk); return; }
    this.wasForgotten(key, a, 'transfer on behalf');
    this.expectBlock({ btype: '37xfer', tid: id, from: a.from, to: a.to, spender: sp, memo: a.memo, cat: a.created_at_time === null ? [null] : [BigInt(a.created_at_time)] });
    this.num([], res.Ok, 'transfer on behalf'); this.remember(key, full);
    this.cnt(viaColl ? 'moved by collection approval' : sk === akey(a.from) ? 'moved by owner on behalf' : 'moved by token approval');
    this.move(k, t, a.to, 'onbehalf');
  }
  dropExpired() { }
  collCause(owner, sk) { const c = this.endedColl.get(akey(owner) + '/' + sk); return c ? [c] : []; }
  op_burn(op) {
    const id = BigInt(op.id), k = id.toString(), t = this.tokens.get(k), reasons = []; this.touch.add(k);
    const res = this.rejected('burn_nft', this.u(op.caller, 'burn_nft', [], id), ['C02'], op);
    if (!t) reasons.push({ tags: ['C02', 'C01'], why: 'the token does not exist', key: 'missing' });
    else if (t.owner.owner !== op.caller) reasons.push({ tags: ['C02'], why: 'the caller is not the owner', key: 'not owner' });
    const may = !reasons.length && this.logAttempt();
    if (!this.judge('burn', op, res, reasons, may, ['C02'])) return;
    this.expectBlock({ btype: '7burn', tid: id, from: t.owner, cat: [this.now] }); this.remember('7burn/' + k + '/' + this.now, '');
    const fk = akey(t.owner); this.tokens.delete(k); this.burnt.add(k); this.endTok(k, 'C03'); this.touchA.add(fk);
    if (this.balance(fk) === 0 && this.coll.has(fk)) this.collOpt.add(fk);
  }
  op_mint(op) {
    this.afterRefused = false; const r = this.u(op.caller, 'mint', [], { mint_requests: op.reqs });
    if (!this.hasPerm(op.caller, 'Minting')) return this.denied('mint', r, op);
    const n = BigInt(op.reqs.length), reasons = [];
    if (n > this.maxBatch) reasons.push({ tags: ['D03', 'M04'], why: n + ' items exceed the batch size ' + this.maxBatch, key: 'mint batch' });
    if (this.supply() + n > this.cap) reasons.push({ tags: ['M01', 'M04'], why: 'the supply cap ' + this.cap + ' would be exceeded', key: 'cap' });
    if (op.reqs.some(q => q.memo && BigInt(q.memo.length) > this.maxMemo)) reasons.push({ tags: ['D03', 'M04'], why: 'a memo exceeds ' + this.maxMemo, key: 'memo' });
    let may = op.reqs.some(q => bigInt(q.metadata)), q0 = null;
    if (!reasons.length) { q0 = this.queue.slice(); for (const x of op.reqs) { if (this.logAttempt()) may = true; this.remember('7mint/' + this.now + '/' + (x.i = this.apprSeq++), ''); } }
    if (r.reject) {
      if (may) { this.queue = q0; this.itemErr++; this.mintRefused = true; this.cnt('mint beyond what the log takes'); return; }
      this.rejected('mint', r, ['M01', 'M02'], op);
    }
    if (!this.judge('mint', op, r.ok, reasons, may, ['M01', 'D03', 'M04'])) { if (q0) this.queue = q0; this.mintRefused = true; if (may && !reasons.length) this.cnt('mint refused by the log'); for (let i = 0n; i < n; i++) this.touch.add((this.next + i).toString()); return; }
    if (BigInt(r.ok.Ok) !== this.next) this.bad(['M01', ...(this.mintRefused ? ['M02'] : [])], 'mint answered first id ' + r.ok.Ok + ', the next free id is ' + this.next, { op: js(op).slice(0, 800), burnt: [...this.burnt] });
    op.reqs.forEach((q, i) => {
      const id = this.next + BigInt(i), k = id.toString(); const meta = new Map(); for (const [a, v] of q.metadata) meta.set(a, v);
      this.tokens.set(k, { id, owner: q.token_owner, meta }); this.touch.add(k); this.touchA.add(akey(q.token_owner));
      this.expectBlock({ btype: '7mint', tid: id, to: q.token_owner, memo: q.memo, cat: [this.now] });
    });
    this.next += n; this.afterRefused = this.mintRefused; this.mintRefused = false;
  }
  // a call without permission: refused, no effect
  denied(m, r, op) {
    this.itemErr++; this.denyOp = true; this.settingsTouched = this.permsTouched = true; this.cnt('denied ' + m);
    if (r.reject) return;
    if (r.ok && tag(r.ok) === 'Err') return;
    this.bad(['P01'], m + ' was carried out for a caller without the permission', { op: js(op).slice(0, 800), r: js(r) });
  }
  op_updateMeta(op) {
    const id = BigInt(op.id), k = id.toString(), t = this.tokens.get(k); this.touch.add(k);
    const r = this.u(op.caller, 'update_nft_metadata', [], { token_id: id, metadata: op.meta });
    if (!this.hasPerm(op.caller, 'UpdateMetadata')) return this.denied('update_nft_metadata', r, op);
    const reasons = []; if (!t) reasons.push({ tags: ['M03', 'M02', 'C01'], why: 'the token does not exist', key: 'missing' });
    const may = (!reasons.length && this.logAttempt()) || bigInt(op.meta);
    const meta = new Map(); for (const [a, v] of op.meta) meta.set(a, v);
    const key = t ? '7update/' + k + '/' + this.now + canonM([...t.meta]) + canonM([...meta]) : '', dup = t && this.findDup(key);
    if (r.reject && reasons.length && !/unreachable|panick|trap/i.test(r.reject[1])) { this.itemErr++; return; }
    this.rejected('update_nft_metadata', r, ['M03'], op);
    if (!this.judge('updateMeta', op, r.ok, reasons, may || dup, ['M03'])) return;
    if (BigInt(r.ok.Ok) !== id) this.bad(['M03'], 'update_nft_metadata of ' + id + ' answered ' + r.ok.Ok, {});
    this.expectBlock({ btype: '7update_token', tid: id, from: this.acct(op.caller), cat: [this.now], metaMap: { prev: canonM([...t.meta]), next: canonM([...meta]) } }); this.remember(key, '');
    t.meta = meta;
  }
  op_updateColl(op) {
    const args = {}; for (const k of SETTINGS) args[k] = op.set[k] === undefined ? null : op.set[k]; args.collection_metadata = op.cmeta || null;
    const r = this.u(op.caller, 'update_collection_metadata', [], args);
    if (!this.hasPerm(op.caller, 'UpdateCollectionMetadata')) return this.denied('update_collection_metadata', r, op);
    this.rejected('update_collection_metadata', r, ['M04'], op);
    if (!this.judge('updateColl', op, r.ok, [], false, ['M04'])) return;
    for (const k of SETTINGS) if (op.set[k] !== undefined && op.set[k] !== null) this.set[k] = typeof op.set[k] === 'number' ? BigInt(op.set[k]) : op.set[k];
    for (const [k, v] of op.cmeta || []) this.cmeta.set(k, v);
    this.settingsTouched = true;
  }
  op_grant(op) { this.perm(op, 'grant_permission', s => s.add(op.perm)); }
  op_revoke(op) { this.perm(op, 'revoke_permission', s => s.delete(op.perm)); }
  perm(op, m, f) {
    const r = this.u(op.caller, m, [], { principal: op.who, permission: op.perm }); this.permsTouched = true;
    if (!this.hasPerm(op.caller, 'ManageAuthorities')) return this.denied(m, r, op);
    this.rejected(m, r, ['P02', 'P01'], op);
    if (!this.judge(m, op, r.ok, [], false, ['P02', 'P01'])) return;
    if (!this.perms.has(op.who)) this.perms.set(op.who, new Set()); f(this.perms.get(op.who));
  }
  op_approveTok(op) {
    const r = this.okList('icrc37_approve_tokens', this.rejected('icrc37_approve_tokens', this.u(op.caller, 'icrc37_approve_tokens', [], op.args), ['C04'], op), op.args.length, ['C04']);
    op.args.forEach((a, i) => this.approveItem(op, a.token_id, a.approval_info, r[i]));
  }
  op_approveColl(op) {
    const r = this.okList('icrc37_approve_collection', this.rejected('icrc37_approve_collection', this.u(op.caller, 'icrc37_approve_collection', [], op.args), ['C04'], op), op.args.length, ['C04']);
    op.args.forEach((a, i) => this.approveItem(op, null, a.approval_info, r[i]));
  }
  approveItem(op, tid, f, res) {
    const id = tid === null ? null : BigInt(tid), k = id === null ? '0' : id.toString(), reasons = [], from = this.acct(op.caller, f.from_subaccount), fk = akey(from), sk = akey(f.spender);
    if (id !== null) this.touch.add(k); else this.touchA.add(fk);
    const t = id === null ? null : this.tokens.get(k); let may = false;
    const map = id === null ? this.coll.get(fk) : this.tok.get(k);
    if (this.rateFull(k)) reasons.push({ tags: ['D04'], why: 'five calls for the ' + (id === null ? 'collection' : 'token') + ' went through in the last 60 ms', key: 'rate' });
    else {
      this.rateCount(k);
      const v = this.timing37(BigInt(f.created_at_time)); if (v) reasons.push(this.timeReason(v));
      if (id !== null) {
        if (!t) reasons.push({ tags: ['C04'], why: 'the token does not exist', key: 'missing' });
        else if (akey(t.owner) !== fk) reasons.push({ tags: ['C04'], why: 'the giver does not own the token', key: 'not owner' });
      } else if (!this.ownsAny(op.caller)) reasons.push({ tags: ['C04'], why: 'the caller owns no token', key: 'owns none' });
      if (f.spender.owner === P.ANON) { if (isDefault(f.spender)) reasons.push({ tags: ['C04'], why: 'the spender is anonymous', key: 'anon spender' }); else may = true; }
      if (map) {
        const active = [...map.values()].filter(e => this.live(e)).length;
        if (BigInt(active) >= this.apprLim && !map.has(sk)) reasons.push({ tags: ['C04', 'C06'], why: active + ' approvals are outstanding and ' + this.apprLim + ' are allowed', key: 'limit' });
        else if (BigInt(map.size) >= this.apprLim) may = true;
      }
      if (this.collOpt.has(fk) && id === null) may = true;
      if (f.expires_at !== null && BigInt(f.expires_at) <= this.now) may = true;
      if (sk === fk) may = true;
    }
    let key;
    if (!reasons.length) {
      may = this.logAttempt() || may;
      key = ['37approve', id === null ? 'c' : k, op.caller, f.spender.owner, f.expires_at, this.memoKey(f.memo), f.created_at_time].join('/');
      if (this.findDup(key)) may = true;
    }
    const isOk = res && tag(res) === 'Ok';
    if (!this.judge(id === null ? 'approveColl' : 'approveTok', { caller: op.caller, token: tid, ...f }, res, reasons, may, ['C04'])) return;
    this.expectBlock({ btype: id === null ? '37approve_coll' : '37approve', tid: id, from, spender: f.spender, exp: f.expires_at === null ? null : BigInt(f.expires_at), memo: f.memo, cat: [BigInt(f.created_at_time)] });
    this.num(['C04'], res.Ok, 'approval'); this.remember(key, '');
    const e = { spender: f.spender, from, exp: f.expires_at === null ? null : BigInt(f.expires_at), memo: f.memo, at: this.now, prov: BigInt(f.created_at_time), seq: ++this.apprSeq };
    const M = id === null ? this.coll : this.tok, mk = id === null ? fk : k; if (!M.has(mk)) M.set(mk, new Map()); M.get(mk).set(sk, e);
    if (id === null) { this.endedColl.delete(fk + '/' + sk); this.everColl.add(fk); } else { this.endedTok.delete(k + '/' + sk); this.everTok.set(k, true); }
  }
  op_revokeTok(op) {
    const r0 = this.rejected('icrc37_revoke_token_approvals', this.u(op.caller, 'icrc37_revoke_token_approvals', [], op.args), ['C05'], op), n = op.args.length;
    if (n === 0) { this.okList('icrc37_revoke_token_approvals', r0, 0, ['C05']); return; }
    const k0 = BigInt(op.args[0].token_id).toString();
    if (this.rateFull(k0)) { this.itemErr++; this.cnt('refused: rate'); if (r0 && tag(r0) === 'Ok' && r0.Ok.some(x => x && tag(x) === 'Ok')) this.bad(['D04'], 'a sixth call for token ' + k0 + ' within 60 ms was let through', { op: js(op) }); return; }
    this.rateCount(k0);
    if (r0 && tag(r0) === 'Err') this.bad(['C05', 'X02', ...(/rate limit/i.test(js(r0)) ? ['D04'] : [])], 'revocation call refused: ' + js(r0), { op: js(op) });
    const lim = BigInt(n) < this.revLim ? n : Number(this.revLim);
    const r = this.okList('icrc37_revoke_token_approvals', r0, lim, ['C05']);
    for (let i = 0; i < lim; i++) this.revokeItem(op, op.args[i].token_id, op.args[i], r[i], false);
    for (let i = lim; i < n; i++) this.touch.add(BigInt(op.args[i].token_id).toString());
  }
  op_revokeColl(op) {
    const n = op.args.length, r0 = this.rejected('icrc37_revoke_collection_approvals', this.u(op.caller, 'icrc37_revoke_collection_approvals', [], op.args), ['C05'], op);
    const lim = BigInt(n) < this.revLim ? n : Number(this.revLim);
    const r = this.okList('icrc37_revoke_collection_approvals', r0, lim, ['C05']);
    for (let i = 0; i < lim; i++) this.revokeItem(op, null, op.args[i], r[i], true);
  }
  revokeItem(op, tid, a, res, rated) {
    const id = tid === null ? null : BigInt(tid), k = id === null ? null : id.toString(), from = this.acct(op.caller, a.from_subaccount), fk = akey(from), reasons = []; let may = false;
    if (id !== null) this.touch.add(k); else this.touchA.add(fk);
    if (rated && this.rateFull('0')) reasons.push({ tags: ['D04'], why: 'five collection calls went through in the last 60 ms', key: 'rate' });
    else {
      if (rated) this.rateCount('0');
      if (a.created_at_time !== null) { const v = this.timing37(BigInt(a.created_at_time)); if (v) reasons.push(this.timeReason(v)); }
      if (id !== null) {
        const t = this.tokens.get(k);
        if (!t) reasons.push({ tags: ['C05'], why: 'the token does not exist', key: 'missing' });
        else if (akey(t.owner) !== fk) reasons.push({ tags: ['C05'], why: 'the caller account does not own the token', key: 'not owner' });
        else if (!this.everTok.has(k)) reasons.push({ tags: ['C05'], why: 'nothing was ever approved', key: 'never approved' });
      } else if (!this.everColl.has(fk)) reasons.push({ tags: ['C05'], why: 'nothing was ever approved', key: 'never approved' });
      const map = id === null ? this.coll.get(fk) : this.tok.get(k);
      const hit = map && (a.spender ? map.has(akey(a.spender)) && this.live(map.get(akey(a.spender))) : [...map.values()].some(e => this.live(e)));
      if (!hit) may = true;
      if (id === null && this.collOpt.has(fk)) may = true;
    }
    let key;
    if (!reasons.length) {
      may = this.logAttempt() || may;
      key = ['37revoke', id === null ? 'c' : k, op.caller, a.spender ? a.spender.owner : '-', this.memoKey(a.memo), a.created_at_time === null ? '-' : a.created_at_time].join('/');
      if (this.findDup(key)) may = true;
    }
    if (!this.judge(id === null ? 'revokeColl' : 'revokeTok', { caller: op.caller, token: tid, ...a }, res, reasons, may, ['C05'])) return;
    this.expectBlock({ btype: id === null ? '37revoke_coll' : '37revoke', tid: id, from, spender: a.spender || null, memo: a.memo, cat: a.created_at_time === null ? [null] : [BigInt(a.created_at_time)] });
    this.num(['C05'], res.Ok, 'revocation'); this.remember(key, '');
    const map = id === null ? this.coll.get(fk) : this.tok.get(k), end = sk => { if (id === null) this.endedColl.set(fk + '/' + sk, 'C05'); else this.endedTok.set(k + '/' + sk, 'C05'); };
    if (!map) return;
    if (a.spender) { if (map.delete(akey(a.spender))) { end(akey(a.spender)); this.cnt('revoked one'); } } else { for (const sk of map.keys()) end(sk); if (map.size) this.cnt('revoked all'); map.clear(); }
  }
  op_upgrade() {
    if (!this.o.quickUpgrade) this.fullAudit('before upgrade');
    if (this.o.noUpgrade) return;
    const r = this.c.upgradeTo(this.o.wasm, this.ctl, this.o.upgradeArgs ? this.o.upgradeArgs() : { version: { major: this.rng.pick([0, 0, 0, 1]), minor: 0, patch: this.rng.pick([2 + this.upgrades, 2 + this.upgrades, 1 + this.upgrades, 1, 0]) }, commit_hash: this.rng.pick(['', 'h', 'h' + this.upgrades]) });
    if (!r.ok) this.bad(['X01', 'X02'], 'the upgrade failed: ' + r.trap, {});
    this.w.run(); this.upgrades++; this.cnt('upgrades'); this.since = new Set(['upgrade']); this.afterUpgrade = true;
    if (!this.o.quickUpgrade) this.fullAudit('after upgrade');
    this.afterUpgrade = false;
  }
  op_time() { }
  // ---------- one step
  step(op) {
    this.opn++; this.touch = new Set(); this.touchA = new Set(); this.itemOk = 0; this.itemErr = 0; this.dupSeen = false; this.denyOp = false; this.settingsTouched = this.permsTouched = false;
    if (op.adv) this.adv(op.adv);
    this.trace.push({ n: this.opn, t: this.now, ...op }); this.cnt('ops'); this.cnt('op ' + op.k); this.cur = op.k; this.since.add(op.k);
    this['op_' + op.k](op);
    if (op.k !== 'upgrade') { this.syncBlocks(); if (!this.light) this.cheapAudit(); }
    if (this.distinct) {
      const h = sha(op.k + '|' + this.itemOk + '|' + this.itemErr + '|' + this.digest());
      if (this.itemOk || this.itemErr || op.k === 'upgrade') this.distinct.add(h);
      if (this.samples && this.samples.length < 3 && this.itemOk && this.opn > 8) this.samples.push({ op: plain(op).slice(0, 500), ok: this.itemOk, err: this.itemErr, tokens: this.tokens.size, blocks: this.blocks.length });
    }
  }
  digest() {
    const a = []; for (const [k, t] of this.tokens) a.push(k + '=' + akey(t.owner).slice(0, 8) + akey(t.owner).slice(-4)); for (const [k, m] of this.tok) a.push('A' + k + ':' + [...m.keys()].map(x => x.slice(0, 6)).sort()); for (const [k, m] of this.coll) a.push('C' + k.slice(0, 6) + ':' + [...m.keys()].map(x => x.slice(0, 6)).sort()); return a.join(';');
  }
  mTags() { return [...(this.itemErr ? ['M02'] : []), ...(this.afterUpgrade ? ['X01'] : []), ...(this.dupSeen ? ['D01'] : []), ...(this.deniedOp() ? ['P01'] : [])]; }
  deniedOp() { return this.denyOp; }
  // ---------- the log
  fetch(start, len) { return this.fetchRanges([[start, len]]); }
  fetchRanges(l) {
    const r = this.q(this.ctl, 'icrc3_get_blocks', ['L02', 'L01'], l.map(([start, length]) => ({ start, length })));
    if (!r || typeof r.log_length !== 'bigint') this.bad(['L02'], 'icrc3_get_blocks: malformed answer', { r: js(r).slice(0, 400) });
    const out = r.blocks.map(b => ({ id: BigInt(b.id), block: b.block, where: 'local' }));
    for (const a of r.archived_blocks || []) for (const b of this.fetchArchive(a)) out.push(b);
    out.sort((x, y) => (x.id < y.id ? -1 : x.id > y.id ? 1 : 0));
    return { n: r.log_length, blocks: out, archived: (r.archived_blocks || []).length };
  }
  fetchArchive(a) {
    const cb = a.callback; const [cid, method] = Array.isArray(cb) ? cb : [cb.canister || cb.principal || cb[0], cb.method || cb[1]];
    const c = this.w.canisters.get(cid);
    if (!c) this.bad(['L04'], 'the archive reference names an unknown canister', { a: js(a) });
    const arg = encode([T.vec(T.record({ start: T.nat, length: T.nat }))], [a.args]);
    const r = this.w.query(cid, method, arg, this.ctl);
    if (!r.reply) this.bad(['L04', 'L02'], 'the archive does not answer: ' + js(r.reject), { a: js(a) });
    const d = decode(r.reply)[0]; this.cnt('archive reads');
    return d.blocks.map(b => ({ id: BigInt(b.id), block: b.block, where: cid }));
  }
  syncBlocks() {
    const have = BigInt(this.blocks.length), want = have + BigInt(this.expBlocks.length);
    const f = this.fetch(have, 1000n); this.cnt('log reads');
    const tags = ['L01', ...this.mTags()];
    if (f.n !== want) this.bad([...tags, ...(f.n < have ? ['L02', 'L04'] : [])], 'the log holds ' + f.n + ' blocks, ' + want + ' expected after ' + this.cur, { ok: this.itemOk, err: this.itemErr, extra: js(f.blocks.slice(0, 3)).slice(0, 1200) });
    if (f.blocks.length !== this.expBlocks.length) this.bad(['L02', ...tags], 'a range over the new blocks returned ' + f.blocks.length + ' of ' + this.expBlocks.length, {});
    f.blocks.forEach((b, i) => { this.checkBlock(b, this.expBlocks[i], have + BigInt(i)); this.blocks.push({ text: js(b.block), b: b.block, exp: this.expBlocks[i] }); });
    this.cnt('blocks checked', f.blocks.length); this.expBlocks = [];
  }
  acctText(v, a, field) {
    const t = v && v.Text;
    if (t === undefined) return false;
    if (!isDefault(a) && t === a.owner && !this.kn0) for (const prop of ['L01', 'L03']) this.kn0 = this.knowns.push({ prop, sig: 'block-names-principal-only', what: 'the block field "' + field + '" of an operation on an account with a subaccount names only its principal' });
    return t === a.owner || t.startsWith(a.owner + '-') || t.startsWith(a.owner + '.');
  }
  checkBlock(b, e, id) {
    const bad = (tags, what) => this.bad(tags, 'block ' + id + ' (' + e.btype + '): ' + what, { block: js(b.block).slice(0, 1500), expected: js({ ...e, metaMap: undefined }).slice(0, 800) });
    if (b.id !== id) bad(['L02'], 'has number ' + b.id);
    const m = b.block.Map; if (!m) bad(['L02'], 'is not a map');
    const bt = mapGet(m, 'btype'), tx = mapGet(m, 'tx'), ts = mapGet(m, 'timestamp') || mapGet(m, 'ts'), ph = mapGet(m, 'phash'), th = mapGet(m, 'thash');
    if (!bt || bt.Text !== e.btype) bad(['L01'], 'has type ' + js(bt));
    if (!ts || ts.Nat === undefined || BigInt(ts.Nat) !== e.ts) bad(['L01', 'L02'], 'has timestamp ' + js(ts) + ', executed at ' + e.ts);
    const prev = this.blocks.length ? this.blocks[this.blocks.length - 1].b : null;
    if (!tx || !tx.Map) bad(['L01'], 'has no transaction');
    if (!ph || !ph.Blob) bad(['L02'], 'has no predecessor hash');
    const want = prev ? mapGet(prev.Map, 'thash') : { Blob: Buffer.alloc(32) };
    const okHash = [want && want.Blob, prev ? hashV(prev) : null, prev ? hashV(prev, true) : null].filter(Boolean).some(h => bufEq(h, ph.Blob));
    if (!okHash) bad(['L02'], 'does not name the hash of its predecessor');
    if (th && !bufEq(th.Blob, hashV(tx, true)) && !bufEq(th.Blob, hashV(tx))) bad(['L02', 'L01'], 'carries a wrong transaction hash');
    if (prev) { const pts = mapGet(prev.Map, 'timestamp') || mapGet(prev.Map, 'ts'); if (BigInt(pts.Nat) > BigInt(ts.Nat)) bad(['L02'], 'is older than its predecessor'); }
    const g = k => mapGet(tx.Map, k);
    const op = g('op'); if (op && op.Text !== e.btype) bad(['L01'], 'has operation ' + js(op));
    if (e.tid !== undefined && e.tid !== null ? !g('tid') || BigInt(g('tid').Nat) !== e.tid : g('tid')) bad(['L01', 'L03'], 'names token ' + js(g('tid')));
    for (const f of ['from', 'to', 'spender']) {
      const v = g(f); if (e[f]) { if (!v || !this.acctText(v, e[f], f)) bad(['L01', 'L03'], f + ' is ' + js(v) + ', should name ' + e[f].owner); }
      else if (v) bad(['L01', 'L03'], 'has an unexpected ' + f);
    }
    const memo = g('memo'); if (e.memo ? !memo || !bufEq(memo.Blob, e.memo) : memo) bad(['L01'], 'has memo ' + js(memo));
    const ex = g('exp') || g('expires_at'); if (e.exp !== undefined && e.exp !== null ? !ex || BigInt(ex.Nat) !== e.exp : ex) bad(['L01', 'L03'], 'has expiry ' + js(ex));
    const ca = g('created_at_time'), cv = ca ? BigInt(ca.Nat) : null; if (!e.cat.some(x => x === cv)) bad(['L01', 'D01'], 'has creation time ' + cv);
    const meta = g('meta');
    if (e.metaMap) {
      const pm = meta && meta.Map && mapGet(meta.Map, 'icrc7:previous_metadata'), nm = meta && meta.Map && mapGet(meta.Map, 'icrc7:new_metadata');
      if (!nm || !nm.Map || canonM(nm.Map) !== e.metaMap.next) bad(['L01', 'M03', 'L03'], 'does not carry the new metadata');
      if (!pm || !pm.Map || canonM(pm.Map) !== e.metaMap.prev) bad(['L01', 'M03'], 'does not carry the previous metadata');
    } else if (meta && !(meta.Map && e.btype === '7mint')) bad(['L01'], 'has unexpected metadata');
  }
  // re-reads parts of the whole log and compares with what was published before
  logAudit(tags0 = []) {
    const n = BigInt(this.blocks.length), rng = this.rng, tags = ['L02', ...tags0, ...(this.afterUpgrade ? ['X01'] : [])];
    const ranges = [[0n, n], [n, 5n]]; for (let i = 0; i < 3; i++) { const s = BigInt(rng.int(Number(n) + 2)); ranges.push([s, BigInt(rng.int(12))]); }
    for (const [s, l] of ranges) {
      const f = this.fetch(s, l); this.cnt('range reads');
      if (f.n !== n) this.bad([...tags, 'L01'], 'the log length is ' + f.n + ', was ' + n, {});
      const end = s + l < n ? s + l : n, want = end > s ? end - s : 0n;
      if (BigInt(f.blocks.length) !== want) this.bad([...tags, 'L04'], 'range ' + s + '+' + l + ' returned ' + f.blocks.length + ' of ' + want + ' blocks', { ids: f.blocks.map(b => String(b.id)).slice(0, 30), archived: f.archived });
      f.blocks.forEach((b, i) => {
        if (b.id !== s + BigInt(i)) this.bad([...tags, 'L04'], 'range ' + s + '+' + l + ' is not in order: position ' + i + ' holds block ' + b.id, {});
        if (js(b.block) !== this.blocks[Number(b.id)].text) this.bad([...tags, ...(b.where === 'local' ? [] : ['L04'])], 'block ' + b.id + ' changed after it was published', { was: this.blocks[Number(b.id)].text.slice(0, 700), is: js(b.block).slice(0, 700) });
      });
    }
    { // several ranges in one request: together exactly their blocks
      const l = Array.from({ length: rng.range(0, 4) }, () => [BigInt(rng.chance(0.15) ? Number(n) + rng.int(3) : rng.int(Number(n) + 1)), BigInt(rng.pick([0, 1, 2, 5, 9]))]); const want = new Set(); for (const [s, k] of l) for (let i = s; i < s + k && i < n; i++) want.add(i);
      const f = this.fetchRanges(l), got = new Set(f.blocks.map(b => b.id)); this.cnt('requests of several ranges', l.length > 1 ? 1 : 0);
      if (f.n !== n || [...want].some(i => !got.has(i)) || [...got].some(i => !want.has(i))) this.bad([...tags, 'L04'], 'the ranges ' + l.map(x => x.join('+')) + ' returned blocks ' + [...got] + ' instead of ' + [...want], { n: String(f.n) });
      for (const b of f.blocks) if (js(b.block) !== this.blocks[Number(b.id)].text) this.bad([...tags, 'L04'], 'block ' + b.id + ' differs when several ranges are asked for', { was: this.blocks[Number(b.id)].text.slice(0, 700), is: js(b.block).slice(0, 700) });
    }
    const t = this.q(this.ctl, 'icrc3_supported_block_types', ['L02']).map(x => x.block_type);
    for (const b of this.blocks) { const bt = mapGet(b.b.Map, 'btype').Text; if (!t.includes(bt)) this.bad(['L02'], 'block type ' + bt + ' is not advertised', { t }); }
  }
  // ---------- audits
  chunks(list) { const k = this.maxQuery > 50n ? 50 : Number(this.maxQuery), out = []; if (k === 0) return []; for (let i = 0; i < list.length; i += k) out.push(list.slice(i, i + k)); return out; }
  pool() { const m = new Map(); for (const u of [...this.users, P.ANON, this.ctl]) for (const s of this.subs) { const a = this.acct(u, s); m.set(akey(a) + (s ? 's' : ''), a); } return [...m.values()]; }
  ownTags() { return ['C01', ...(OPTAGS[this.cur] || []).filter(t => t !== 'D03' && t !== 'M03' && t !== 'M04'), ...this.mTags()]; }
  cheapAudit() {
    const tags = this.ownTags();
    const ids = [...this.tokens.keys()].map(BigInt), ghosts = [0n, this.next, this.next + 1n]; for (const b of this.burnt) if (ghosts.length < 8) ghosts.push(BigInt(b));
    for (const ch of this.chunks([...ids, ...ghosts])) {
      const r = this.q(this.users[0], 'icrc7_owner_of', ['C01', 'Q01'], ch);
      if (!Array.isArray(r) || r.length !== ch.length) this.bad(['C01', 'Q01'], 'owner query of ' + ch.length + ' ids got ' + (r && r.length) + ' answers', {});
      ch.forEach((id, i) => { const t = this.tokens.get(id.toString()), a = r[i];
        if (t ? !a || akey(a) !== akey(t.owner) : a) this.bad([...tags, ...(t ? [] : ['M01'])], 'token ' + id + ' is owned by ' + (a ? short(a) : 'nobody') + ', should be ' + (t ? short(t.owner) : 'nobody') + ' after ' + this.cur, {}); });
      this.cnt('owner answers', ch.length);
    }
    const sup = this.q(this.users[0], 'icrc7_total_supply', ['C01']); if (BigInt(sup) !== this.supply()) this.bad(tags, 'total supply is ' + sup + ', ' + this.tokens.size + ' tokens exist', {});
    const pool = this.pool(); const bal = new Map(); for (const t of this.tokens.values()) bal.set(akey(t.owner), (bal.get(akey(t.owner)) || 0) + 1);
    for (const ch of this.chunks(pool)) {
      const r = this.q(this.users[0], 'icrc7_balance_of', ['C01', 'Q01'], ch); if (r.length !== ch.length) this.bad(['C01', 'Q01'], 'balance query of ' + ch.length + ' accounts got ' + r.length + ' answers', {});
      ch.forEach((a, i) => { if (Number(r[i]) !== (bal.get(akey(a)) || 0)) this.bad(tags, 'the balance of ' + short(a) + ' is ' + r[i] + ', it owns ' + (bal.get(akey(a)) || 0), {}); });
    }
    this.listAudit(null, tags, true);
    const al = pool[this.rng.int(pool.length)]; this.listAudit(al, tags, true);
    for (const k of this.touchA) { const a = pool.find(x => akey(x) === k); if (a) this.listAudit(a, tags, true); }
    for (const k of this.touch) { this.apprAuditTok(k); this.metaAudit([k]); }
    for (const k of this.touchA) this.apprAuditColl(k);
    const all = [...this.tokens.keys()]; if (all.length) { this.apprAuditTok(this.rng.pick(all)); this.metaAudit([this.rng.pick(all)]); }
    if (this.touch.size || this.touchA.size) this.isApprovedAudit(6);
    if (this.settingsTouched) this.settingsAudit();
    if (this.permsTouched) this.permsAudit();
  }
  // one page, compared with the model (page size chosen at random within the limits)
  listAudit(acct, tags, quick) {
    const exp = [...this.tokens.values()].filter(t => !acct || akey(t.owner) === akey(acct)).map(t => t.id).sort((a, b) => (a < b ? -1 : 1));
    const m = acct ? 'icrc7_tokens_of' : 'icrc7_tokens', args = acct ? [acct] : [];
    const page = (prev, take) => {
      const r = this.q(this.users[0], m, ['Q01', 'C01'], ...args, prev, take).map(BigInt); this.cnt('pages');
      const rest = exp.filter(x => x > (prev === null ? 0n : prev));
      const lim = take === null ? this.defTake : take;
      let want = rest.slice(0, lim > 100000n ? rest.length : Number(lim));
      if (take === null && this.defTake > this.maxTake && r.length === Math.min(rest.length, Number(this.maxTake))) want = rest.slice(0, r.length);
      if (js(r) !== js(want)) {
        const t = new Set(tags); if (quick ? js([...r].sort()) !== js([...want].sort()) : false) t.add('C01'); t.add('Q01');
        this.bad([...t], (acct ? 'tokens of ' + short(acct) : 'token list') + ' after ' + prev + ' with page size ' + take + ' is [' + r + '], should be [' + want + ']', {});
      }
      return r;
    };
    if (quick) { page(null, this.rng.chance(0.5) || this.maxTake === 0n ? null : this.maxTake > 1000n ? 1000n : this.maxTake); return; }
    if (this.maxTake === 0n) { page(null, 0n); return; }
    const top = Number(this.maxTake > 60n ? 60n : this.maxTake), k = BigInt(this.rng.range(1, Math.min(top, this.rng.chance(0.5) ? 3 : 60)));
    const seen = []; let prev = null;
    for (let i = 0; i < 400; i++) { const r = page(prev, k); if (!r.length) break; seen.push(...r); prev = r[r.length - 1]; }
    if (js(seen) !== js(exp)) this.bad(['Q01', 'C01', ...tags], 'paging by ' + k + ' yields [' + seen + '], should be [' + exp + ']', {});
    for (const p of [BigInt(this.rng.int(Number(this.next) + 3)), this.next + (1n << 70n)]) page(p, k);
    if (this.rng.chance(0.3)) page(null, 0n);
    const over = this.maxTake + (this.rng.chance(0.5) ? 1n : 1n << 66n);
    const r = this.c.q(this.users[0], m, ...args, null, over); this.cnt('oversized pages');
    if (!r.reject) this.bad(['Q01', 'M04'], 'a page size of ' + over + ' was served although the maximum is ' + this.maxTake, {});
  }
  batchLimitAudit() {
    const mq = this.maxQuery; if (mq > 300n) return;
    const n = Number(mq), ids = Array.from({ length: n + 1 }, (_, i) => BigInt(i)), ac = Array.from({ length: n + 1 }, () => this.acct(this.rng.pick(this.users)));
    for (const [m, a] of [['icrc7_owner_of', ids], ['icrc7_token_metadata', ids], ['icrc7_balance_of', ac]]) {
      const over = this.c.q(this.users[0], m, a); this.cnt('oversized batches'); if (!over.reject) this.bad(['Q01', 'M04'], m + ' answered ' + (n + 1) + ' items although the maximum is ' + n, {});
      const r = this.q(this.users[0], m, ['Q01', 'M04'], a.slice(0, n)); if (r.length !== n) this.bad(['Q01'], m + ' of ' + n + ' items got ' + r.length + ' answers', {});
      r.forEach((x, i) => { const t = m === 'icrc7_balance_of' ? null : this.tokens.get(String(i));
        if (m === 'icrc7_balance_of') { if (Number(x) !== this.balance(akey(a[i]))) this.bad(['Q01', 'C01'], 'balance answer ' + i + ' is out of place', {}); }
        else if (m === 'icrc7_owner_of' ? (t ? !x || akey(x) !== akey(t.owner) : x) : (t ? !x || canonM(x) !== canonM([...t.meta]) : x)) this.bad(['Q01', m === 'icrc7_owner_of' ? 'C01' : 'M03'], m + ' answer ' + i + ' is wrong', { x: js(x).slice(0, 300) }); });
    }
  }
  metaAudit(keys) {
    for (const ch of this.chunks(keys.map(BigInt))) {
      const r = this.q(this.users[0], 'icrc7_token_metadata', ['M03', 'Q01'], ch);
      ch.forEach((id, i) => { const t = this.tokens.get(id.toString()); this.cnt('metadata reads');
        if (!t) { if (r[i]) this.bad(['M03', 'M02', 'C01', ...this.mTags()], 'a token that does not exist (' + id + ') has metadata', { m: js(r[i]).slice(0, 400) }); return; }
        if (!r[i] || canonM(r[i]) !== canonM([...t.meta]) || r[i].length !== t.meta.size) this.bad(['M03', ...(this.cur === 'mint' && this.afterRefused ? ['M02'] : []), ...this.mTags(), ...(this.cur === 'mint' || this.cur === 'updateMeta' ? [] : ['C01'])].filter(x => x !== 'C01'), 'the metadata of token ' + id + ' reads back differently after ' + this.cur, { is: js(r[i]).slice(0, 700), should: js([...t.meta]).slice(0, 700) }); });
    }
  }
  apprTags(extra) { const s = new Set(['C06', ...(extra || [])]); for (const k of this.fullMode ? this.since : [this.cur]) for (const t of APPRTAGS[k] || []) s.add(t); for (const t of this.mTags()) s.add(t); return [...s]; }
  pages(m, first, tags) {
    const k = this.rng.chance(0.35) ? null : BigInt(this.rng.range(1, 5)), seen = []; let prev = null;
    for (let i = 0; i < 60; i++) { const r = this.q(this.users[0], m, ['C06'], first, prev, k); this.cnt('approval pages'); if (k !== null && BigInt(r.length) > k) this.bad(['C06'], m + ' returned ' + r.length + ' entries for a page of ' + k, {}); if (!r.length) break; seen.push(...r); prev = r[r.length - 1]; if (seen.length > 60) break; }
    return seen;
  }
  cmpApprovals(seen, map, what, tags, idOf) {
    const left = new Map(map || []); let last = null, lastP = null;
    for (const x of seen) {
      const f = x.approval_info, sk = akey(f.spender), e = left.get(sk);
      if (!e) this.bad(tags, what + ' lists an approval for ' + short(f.spender) + (map && map.has(sk) ? ' twice' : ' that is not outstanding'), { x: js(x) });
      left.delete(sk);
      if (idOf !== undefined && BigInt(x.token_id) !== idOf) this.bad(tags, what + ' names token ' + x.token_id, {});
      if (big(f.expires_at) !== e.exp || !bufEq(f.memo, e.memo)) this.bad(tags, what + ' lists the approval of ' + short(f.spender) + ' with wrong expiry or memo', { is: js(f), should: js({ exp: e.exp, memo: e.memo }) });
      if (!bufEq(f.from_subaccount || ZERO32, e.from.subaccount || ZERO32)) this.bad(['C06'], what + ' lists the approval of ' + short(f.spender) + ' as given from another subaccount', { is: js(f), should: js(e.from) });
      const ct = BigInt(f.created_at_time); if (ct !== e.at && ct !== e.prov) this.bad(tags, what + ' lists creation time ' + ct, { at: e.at.toString(), provided: e.prov.toString() });
      if (last !== null && e.at > last && e.prov > lastP) this.bad(['C06'], what + ' is not newest first', { seen: js(seen).slice(0, 900) });
      last = e.at; lastP = e.prov;
    }
    // approvals that did not change keep their order, or a reader who pages while others act would lose some
    const now = seen.map(x => (map ? map.get(akey(x.approval_info.spender)) : null)).filter(e => e), was = this.order.get(what);
    if (was) { const cur = new Set(now), old = was.filter(e => cur.has(e)), keep = new Set(old), is = now.filter(e => keep.has(e)); if (old.length > 1) this.cnt('approval orders compared'); for (let i = 1; i < old.length; i++) if (old[i].at === old[i - 1].at || old[i].prov === old[i - 1].prov) { this.cnt('approval orders compared with ties'); break; }
      if (is.some((e, i) => e !== old[i])) this.bad(['C06'], what + ' lists unchanged approvals in another order than before', { was: old.map(e => short(e.spender)), is: is.map(e => short(e.spender)) }); }
    this.order.set(what, now);
    for (const e of left.values()) if (this.live(e)) this.bad(tags, what + ' misses the approval for ' + short(e.spender), { seen: js(seen).slice(0, 900), now: this.now.toString(), exp: String(e.exp) });
    this.cnt('approval entries checked', seen.length);
  }
  apprAuditTok(k) {
    const tags = this.apprTags();
    const seen = this.pages('icrc37_get_token_approvals', BigInt(k));
    this.cmpApprovals(seen, this.tokens.has(k) ? this.tok.get(k) : null, 'the approval list of token ' + k, tags, BigInt(k));
  }
  apprAuditColl(fk) {
    const a = this.pool().find(x => akey(x) === fk) || this.acct(...(([o, s]) => [o, Buffer.from(s, 'hex')])(fk.split('|')));
    const seen = this.pages('icrc37_get_collection_approvals', a);
    if (this.collOpt.has(fk)) { // the last token left by a direct transfer or a burn: the approvals may have ended
      if (!seen.length) { const m = this.coll.get(fk); if (m) for (const sk of m.keys()) this.endedColl.set(fk + '/' + sk, 'C03'); if (m && [...m.values()].some(e => this.live(e))) { this.coll.delete(fk); this.everColl.delete(fk); } }
      this.collOpt.delete(fk);
    }
    this.cmpApprovals(seen, this.coll.get(fk), 'the collection approval list of ' + short(a), this.apprTags(), undefined);
  }
  isApprovedAudit(n) {
    const ids = [...this.tokens.keys(), '0', (this.next + 2n).toString()], pool = this.pool(), args = [], exp = [];
    for (let i = 0; i < n; i++) {
      const touch = [...this.touch]; const k = touch.length && this.rng.chance(0.5) ? this.rng.pick(touch) : this.rng.pick(ids), t = this.tokens.get(k); let sp = this.rng.pick(pool);
      const m = this.tok.get(k), cm = t && this.coll.get(akey(t.owner)); const cand = [...(m ? m.values() : []), ...(cm ? cm.values() : [])]; if (cand.length && this.rng.chance(0.6)) sp = this.rng.pick(cand).spender;
      else if (this.rng.chance(0.3)) { const e = [...this.endedTok.keys()].filter(x => x.startsWith(k + '/')); if (e.length) { const [o, s] = this.rng.pick(e).slice(k.length + 1).split('|'); sp = this.acct(o, Buffer.from(s, 'hex')); } }
      const fs = this.rng.chance(0.8) ? sp.subaccount : this.rng.pick(this.subs);
      args.push({ spender: sp, from_subaccount: fs, token_id: BigInt(k) });
      const sk = akey(sp); let e = false, lenient = false;
      if (t) { e = sk === akey(t.owner) || this.approvedTok(k, sk) || this.approvedColl(akey(t.owner), sk); if (!bufEq(fs || ZERO32, sp.subaccount || ZERO32) && t.owner.owner === sp.owner) lenient = true; if (this.collOpt.has(akey(t.owner))) lenient = true; }
      exp.push(lenient ? null : e);
    }
    const r = this.q(this.users[0], 'icrc37_is_approved', ['C06'], args); this.cnt('approval checks', n);
    if (r.length !== n) this.bad(['C06'], 'the approval check of ' + n + ' items got ' + r.length + ' answers', {});
    exp.forEach((e, i) => { if (e !== null && r[i] !== e) this.bad(this.apprTags(), 'the approval check says ' + r[i] + ' for ' + short(args[i].spender) + ' and token ' + args[i].token_id + ', should be ' + e, { arg: js(args[i]), now: this.now.toString() }); if (e) this.cnt('approval checks yes'); });
  }
  settingsAudit() {
    const tags = ['M04', ...this.mTags()], g = (m, ...a) => this.q(this.users[0], m, ['M04'], ...a), s = this.set;
    const eq = (name, is, should) => { const n = v => (v === null || v === undefined ? null : typeof v === 'bigint' || typeof v === 'number' ? String(v) : v); if (n(is) !== n(should)) this.bad([...tags, ...(/window|drift/.test(name) ? ['D02'] : []), ...(/approv/.test(name) ? ['C06'] : [])], name + ' reports ' + js(is) + ', the configured value is ' + js(should), {}); this.cnt('settings read'); };
    for (const k of ['symbol', 'name', 'description', 'logo', 'supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'default_take_value', 'max_take_value', 'max_memo_size', 'atomic_batch_transfers', 'tx_window', 'permitted_drift']) {
      const v = g('icrc7_' + k); const D = { supply_cap: DEF.cap, max_query_batch_size: DEF.query, max_update_batch_size: DEF.batch, default_take_value: DEF.take, max_take_value: DEF.max_take, max_memo_size: DEF.memo, atomic_batch_transfers: false, tx_window: DEF.tx_window, permitted_drift: DEF.permitted_drift };
      if (s[k] === null && k in D && v !== null) eq('icrc7_' + k, v, D[k]); else eq('icrc7_' + k, v, s[k]);
    }
    const ma = g('icrc37_max_approvals_per_token_or_collection'), mr = g('icrc37_max_revoke_approvals');
    if (!(this.maxAppr === null && (ma === null || BigInt(ma) === DEF.appr))) eq('icrc37_max_approvals_per_token_or_collection', ma, this.maxAppr);
    if (!(this.maxRevoke === null && (mr === null || BigInt(mr) === DEF.revoke))) eq('icrc37_max_revoke_approvals', mr, this.maxRevoke);
    const m = g('icrc7_collection_metadata'); const val = k => { const v = mapGet(m, 'icrc7:' + k); return v === undefined ? null : v[tag(v)]; };
    for (const k of ['symbol', 'name', 'description', 'logo', 'supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'default_take_value', 'max_take_value', 'max_memo_size', 'tx_window', 'permitted_drift']) { const v = val(k); if (!(s[k] === null && v !== null)) eq('collection metadata icrc7:' + k, v, s[k]); }
    eq('collection metadata icrc7:total_supply', val('total_supply'), this.supply());
    const at = val('atomic_batch_transfers'); if (s.atomic_batch_transfers !== null) eq('collection metadata icrc7:atomic_batch_transfers', String(at === 1n ? true : at === 0n ? false : at), String(s.atomic_batch_transfers));
    const names = new Set(); for (const [k] of m) { if (names.has(k)) this.bad(tags, 'collection metadata lists ' + k + ' twice', {}); names.add(k); }
    for (const [k, v] of this.cmeta) { if (/^icrc7:/.test(k)) continue; const x = mapGet(m, k); if (!x || canonV(x) !== canonV(v)) this.bad(tags, 'collection metadata ' + k + ' is ' + js(x) + ', the configured value is ' + js(v), {}); }
    for (const [k] of m) if (!k.startsWith('icrc7:') && !this.cmeta.has(k)) this.bad(tags, 'collection metadata holds ' + k + ', which was never set', {});
  }
  permsAudit() {
    const admin = [...this.perms].find(([, s]) => s.has('ManageAuthorities'));
    const tags = ['P02', ...this.mTags(), ...(this.itemErr ? ['P01'] : [])];
    for (const p of [...this.users, P.ANON, this.ctl]) {
      const set = this.perms.get(p) || new Set();
      if (admin) {
        const r = this.q(admin[0], 'get_user_permissions', ['P02', 'P01'], { principal: p });
        const list = tag(r) === 'Ok' ? r.Ok.map(tag) : []; const uniq = [...new Set(list)].sort();
        if (js(uniq) !== js([...set].sort())) this.bad(tags, 'the permissions of ' + p.slice(0, 5) + ' are [' + uniq + '], should be [' + [...set].sort() + ']', {});
        const x = this.rng.pick(PERMS), h = this.q(admin[0], 'has_permission', ['P02', 'P01'], { principal: p, permission: x });
        if (tag(h) !== 'Ok' || h.Ok !== set.has(x)) this.bad(tags, 'has_permission(' + x + ') of ' + p.slice(0, 5) + ' says ' + js(h) + ', should be ' + set.has(x), {});
        this.cnt('permission reads', 2);
      }
      if (!set.has('ManageAuthorities')) for (const [m, a] of [['get_user_permissions', { principal: p }], ['has_permission', { principal: p, permission: 'Minting' }]]) { const r = this.c.q(p, m, a); if (!r.reject && tag(r.ok) !== 'Err') this.bad(['P01'], m + ' answered a caller without permission', { p }); this.cnt('denied queries'); }
      const man = set.has('ManageAuthorities'), l = this.c.q(p, 'get_all_storage_subcanisters'); if (man === !!l.reject) this.bad(['P01'], 'get_all_storage_subcanisters ' + (man ? 'refused a caller with' : 'answered a caller without') + ' the permission', { p, r: js(l) }); this.cnt('storage list reads');
      if (man) { const h = this.c.q(p, 'has_permission', { principal: p, permission: 'ManageAuthorities' }); if (h.reject || js(h.ok) !== js({ Ok: true })) this.bad(['P01', 'P02'], 'has_permission refused a caller with the permission or denies it', { p, r: js(h) }); }
      for (const m of ['get_all_uploads', 'get_upload_status']) { const r = m === 'get_all_uploads' ? this.c.q(p, m, null, null) : this.c.q(p, m, '/none'); const can = set.has('ReadUploads'); if (can === !!r.reject) this.bad(['P01'], m + (can ? ' refused a caller with' : ' answered a caller without') + ' the permission', { p, r: js(r) }); this.cnt('upload reads'); }
    }
  }
  fullAudit() {
    this.fullMode = true; this.touch = this.touch || new Set(); this.touchA = this.touchA || new Set(); this.cur = this.cur || 'start';
    this.syncBlocks(); this.logAudit();
    this.cheapAudit(); const tags = this.ownTags();
    this.listAudit(null, tags, false); for (const a of this.pool()) if (this.rng.chance(0.5) || this.balance(akey(a))) this.listAudit(a, tags, false);
    this.batchLimitAudit();
    const ids = [...this.tokens.keys()], some = ids.length > 24 ? this.rng.shuffle(ids.slice()).slice(0, 24) : ids;
    this.metaAudit([...some, '0', this.next.toString(), ...[...this.burnt].slice(0, 4)]);
    for (const k of some) this.apprAuditTok(k); for (const b of [...this.burnt].slice(-4)) this.apprAuditTok(b);
    for (const a of this.pool()) this.apprAuditColl(akey(a));
    for (let i = 0; i < 3; i++) this.isApprovedAudit(15);
    this.settingsAudit(); this.permsAudit(); this.cnt('full audits');
    if (this.since.size) { this.since = new Set(); this.fullMode = false; }
    this.fullMode = false;
  }
  // ---------- L03: fold over the log
  replayAudit() {
    const tok = new Map(), tap = new Map(), cap = new Map(), meta = new Map();
    for (const { b } of this.blocks) {
      const m = b.Map, bt = mapGet(m, 'btype').Text, tx = mapGet(m, 'tx').Map, g = k => { const v = mapGet(tx, k); return v === undefined ? null : v[tag(v)]; };
      const id = g('tid') === null ? null : String(g('tid'));
      const drop = acct => { if (![...tok.values()].includes(acct)) cap.delete(acct); };
      if (bt === '7mint') tok.set(id, g('to'));
      else if (bt === '7burn') { tok.delete(id); tap.delete(id); meta.delete(id); }
      else if (bt === '7xfer') { if (tok.get(id) !== g('from')) this.bad(['L03'], 'the log moves token ' + id + ' from ' + g('from') + ', which does not hold it', {}); tok.set(id, g('to')); tap.delete(id); }
      else if (bt === '37xfer') { if (tok.get(id) !== g('from')) this.bad(['L03'], 'the log moves token ' + id + ' from ' + g('from') + ', which does not hold it', {}); tok.set(id, g('to')); tap.delete(id); drop(g('from')); }
      else if (bt === '7update_token') meta.set(id, canonM(mapGet(g('meta'), 'icrc7:new_metadata').Map));
      else if (bt === '37approve') { if (!tap.has(id)) tap.set(id, new Map()); tap.get(id).set(g('spender'), g('exp')); }
      else if (bt === '37approve_coll') { if (!cap.has(g('from'))) cap.set(g('from'), new Map()); cap.get(g('from')).set(g('spender'), g('exp')); }
      else if (bt === '37revoke') { const x = tap.get(id); if (x) g('spender') === null ? x.clear() : x.delete(g('spender')); }
      else if (bt === '37revoke_coll') { const x = cap.get(g('from')); if (x) g('spender') === null ? x.clear() : x.delete(g('spender')); }
      else this.bad(['L03', 'L02'], 'the log holds a block of unknown type ' + bt, {});
      this.cnt('blocks replayed');
    }
    // against the canister itself
    const ids = [...new Set([...this.tokens.keys(), ...tok.keys()])];
    for (const ch of this.chunks(ids.map(BigInt))) { const r = this.q(this.users[0], 'icrc7_owner_of', ['C01'], ch), mm = this.q(this.users[0], 'icrc7_token_metadata', ['M03'], ch);
      ch.forEach((id, i) => { const k = String(id), o = tok.get(k) || null; if ((r[i] ? r[i].owner : null) !== o) this.bad(['L03'], 'replaying the log gives token ' + k + ' to ' + o + ', the ledger says ' + js(r[i]), {});
        if (r[i] && meta.has(k) && canonM(mm[i]) !== meta.get(k)) this.bad(['L03', 'M03'], 'replaying the log gives token ' + k + ' other metadata than the ledger', {}); this.cnt('replayed tokens'); }); }
    const sup = this.q(this.users[0], 'icrc7_total_supply', []); if (BigInt(sup) !== BigInt(tok.size)) this.bad(['L03'], 'replaying the log gives a supply of ' + tok.size + ', the ledger says ' + sup, {});
    const cmp = (list, map, what) => {
      const is = new Map(list.filter(x => x.approval_info.expires_at === null || BigInt(x.approval_info.expires_at) > this.now).map(x => [x.approval_info.spender.owner, big(x.approval_info.expires_at)]));
      const should = new Map([...(map || [])].filter(([, e]) => e === null || BigInt(e) > this.now).map(([s, e]) => [s, big(e)]));
      const c = m => [...m].map(([k, v]) => k + '@' + v).sort().join(); if (c(is) !== c(should)) this.bad(['L03'], 'replaying the log gives other approvals of ' + what + ' than the ledger', { ledger: c(is), replay: c(should) }); this.cnt('replayed approval lists');
    };
    for (const k of this.tokens.keys()) cmp(this.pages('icrc37_get_token_approvals', BigInt(k)), tap.get(k), 'token ' + k);
    for (const u of this.users) { const l = this.pages('icrc37_get_collection_approvals', this.acct(u)); if (this.collOptReplay && this.collOptReplay.has(u) && !l.length) continue; cmp(l, cap.get(u), 'the collection of ' + u.slice(0, 5)); }
  }
}
module.exports = { Session, DEF, MS, SEC, U64, S1, S2, SETTINGS, BTYPES, short, sat };
