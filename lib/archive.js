'use strict';
// Archiving of the log under faults, delays, upgrades and running operations.
const { Session, SEC, MS } = require('./ledger');
const G = require('./gen');
const P = require('../sim/principal');
const { Violation, js, tag } = require('./util');

const F = { reject: { reject: [2, 'injected: unavailable'] }, rejectSys: { reject: [1, 'injected: system fatal'] }, lose: { lose: [5, 'injected: answer lost'] }, unknown: { lose: [6, 'injected: outcome unknown'] }, garbage: { garble: true } };
const METHODS = ['create_canister', 'install_code', 'insert_blocks'];

class Archive {
  constructor(env, spec) {
    this.env = env; this.rng = env.rng; this.n = env.counters; this.log = env.log = []; const rng = this.rng;
    this.s = new Session({ rng, wasm: env.wasm('core_nft', 'prod'), init: G.randInit(rng, { small: 0.1 }), subs: rng.chance(0.4) ? G.SUBS : [null], counters: env.counters, distinct: env.distinct, samples: env.samples, knowns: [], quickUpgrade: true });
    this.w = this.s.w; this.gen = new G.Gen(this.s, 'base', { noArchive: true, weights: { burst: 0, upgrade: 0, time: 0 }, pauses: { none: 4, few: 14, mid: 60, over: 20, sec: 2 } });
    this.w.fault = m => this.inject(m); this.w.refuseCall = (self, pnd) => this.refuse(self, pnd); this.faults = 0;
  }
  cnt(k, d = 1) { this.n[k] = (this.n[k] || 0) + d; }
  note(x) { this.log.push(x); }
  ours(from, to, method) { return from === this.s.c.id && METHODS.includes(method); }
  use(method, what) { const pl = this.plan; if (!pl || (pl.method && pl.method !== method)) return false; if (pl.skip > 0) { pl.skip--; return false; } if (pl.times <= 0) return false; pl.times--; this.hits++; this.faults++; this.cnt('faults: ' + pl.mode + ' of ' + method); if (method === 'insert_blocks' && (F[pl.mode] || {}).lose || method === 'insert_blocks' && pl.mode === 'garbage') this.lostInsert = true; return true; }
  inject(m) { if (!this.plan || this.plan.mode === 'refuse' || !this.ours(m.from, m.to, m.method)) return null; return this.use(m.method) ? F[this.plan.mode] : null; }
  refuse(self, pnd) { if (!this.plan || this.plan.mode !== 'refuse' || !this.ours(self.id, pnd.callee, pnd.method)) return false; return this.use(pnd.method); }
  archives() { return this.s.q(this.s.ctl, 'icrc3_get_archives', ['L04'], null) || []; }
  audit(why) {
    try { this.s.syncBlocks(); this.s.logAudit(['L04']); } catch (e) { if (e instanceof Violation) { this.excuse(e); e.tags = [...new Set([...e.tags, 'L04'])]; e.detail = { ...e.detail, why, recent: this.log.slice(-12) }; } throw e; }
    const a = this.archives(); const seen = new Set();
    for (const x of a) { if (!this.w.canisters.has(x.canister_id) || seen.has(x.canister_id)) this.s.bad(['L04'], 'the archive list names ' + (seen.has(x.canister_id) ? 'an archive twice' : 'an unknown canister'), { a: js(a) }); seen.add(x.canister_id); }
    this.cnt('archive audits'); if (a.length) this.cnt('audits with archives'); this.arch = a.length; return a;
  }
  ops(n) { for (let i = 0; i < n; i++) this.s.step(G.late(this.gen.next(), this.s.now)); this.note('ops ' + n + ' -> ' + this.s.blocks.length + ' blocks'); }
  run(plan) { // one run of the archive job
    this.plan = plan ? { ...plan } : null; this.hits = 0; this.w.elapse(610n * SEC); this.plan = null;
    if (!this.faults) this.lag();
    this.note('archive run' + (plan ? ' with ' + js(plan) + ' hits ' + this.hits : '')); this.cnt('archive runs'); return this.audit('after an archive run' + (plan ? ' with faults' : ''));
  }
  // known: an insert that took effect although its answer was lost is repeated, which shifts the archived blocks
  excuse(e) { if (this.lostInsert && /changed after it was published|returned \d+ of \d+ blocks|not in order|log holds|log length/.test(e.message)) throw new Known('archive-repeats-insert-after-lost-answer', 'a block whose insertion into the archive succeeded but was answered with an error is inserted again, so later archived numbers name other blocks: ' + e.message); }
  // calls while the job waits for an answer
  busy(method, skip, acts) {
    let seen = 0; const held = new Set(); this.w.hold = m => { if (m.type === 'resp' && m.to === this.s.c.id && m.req && METHODS.includes(m.req.method)) { if (!held.has(m.seq) && !held.open) { held.add(m.seq); if (m.req.method === method && seen++ >= skip) { held.block = m.seq; held.open = true; } } return held.block === m.seq; } return false; };
    this.w.elapse(610n * SEC); const waiting = this.w.queue.length > 0; if (waiting) this.cnt('archive runs held');
    if (waiting) for (let i = 0; i < acts; i++) this.during();
    this.w.hold = null; this.w.run(); this.note('archive run held at ' + method + '#' + skip + (waiting ? '' : ' (not reached)')); return this.audit('after a slow archive run');
  }
  trapped(what, msg) { if (/unreachable|already (mutably )?borrowed|lock/i.test(msg)) { this.cnt('trapped while archiving: ' + what); this.env.knowns.push({ prop: 'L04', sig: 'log-calls-trap-while-archiving', what: what + ' traps while the archive job waits for an answer' }, { prop: 'X02', sig: 'log-calls-trap-while-archiving', what: what + ' traps while the archive job waits for an answer' }); return true; } return false; }
  during() {
    const r = this.rng, s = this.s; const k = r.weighted({ get: 3, archives: 1, op: 5, upgrade: 1, owner: 2, time: 1, miss: 2 });
    if (k === 'owner') { [...s.tokens.keys()].slice(0, 20).map(t => s.q(s.users[0], 'icrc7_owner_of', ['L04'], [BigInt(t)])[0]).forEach((o, i) => { const t = s.tokens.get([...s.tokens.keys()][i]); if (js(o) === 'null' || o.owner !== t.owner.owner) s.bad(['L04', 'C01'], 'owners differ while the archive job waits'); }); this.cnt('reads while archiving'); return; }
    if (k === 'time') { this.w.elapse(BigInt(r.range(1, 700)) * SEC); return; }
    if (k === 'get' || k === 'archives') { const x = k === 'get' ? s.c.q(s.ctl, 'icrc3_get_blocks', [{ start: 0n, length: 1000n }]) : s.c.q(s.ctl, 'icrc3_get_archives', null); if (x.reject) { if (!this.trapped('reading the log', x.reject[1])) s.bad(['L04', 'X02'], 'reading the log failed while the archive job waits: ' + x.reject[1]); } else if (k === 'get') { s.syncBlocks(); s.logAudit(['L04']); } return; }
    if (k === 'upgrade') { const x = s.c.upgradeTo(s.o.wasm, s.ctl, {}); if (!x.ok) { if (!this.trapped('upgrading', x.trap)) s.bad(['L04', 'X01'], 'an upgrade failed while the archive job waits: ' + x.trap); } else { this.cnt('upgraded while archiving'); s.upgrades++; } return; }
    if (k === 'miss') { const x = s.c.u(s.users[0], 'icrc7_transfer', [{ to: s.acct(s.users[1]), token_id: s.next + 7n, memo: null, from_subaccount: null, created_at_time: null }]); if (x.reject) { if (!this.trapped('a call that changes nothing', x.reject[1])) s.bad(['L04', 'X02'], 'a call failed while the archive job waits: ' + x.reject[1]); } return; }
    let op; do { op = G.late(this.gen.next(), s.now); } while (op.k === 'upgrade');
    try { s.step(op); this.cnt('operations while archiving'); } catch (e) { if (e instanceof Violation && this.trapped('an operation (' + op.k + ')', e.message)) return; throw e; }
  }
  // with every call succeeding, blocks that have been old enough for a whole period of the job are in an archive
  lag() { const r = this.s.q(this.s.ctl, 'icrc3_get_blocks', ['L04'], [{ start: 0n, length: 2000n }]); for (const b of r.blocks) { const e = this.s.blocks[Number(b.id)]; if (e && this.s.now - e.exp.ts > 745n * SEC) this.s.bad(['L04', ...(this.s.upgrades ? ['X01'] : [])], 'block ' + b.id + ' of ' + (this.s.now - e.exp.ts) / SEC + ' s ago has not been moved to an archive', { archived: js(r.archived_blocks).slice(0, 300), upgrades: this.s.upgrades, recent: this.log.slice(-10) }); } this.cnt('lag checks'); }
  upgrade() { this.s.step({ k: 'upgrade', adv: 0n }); this.note('upgrade'); this.audit('after an upgrade'); }
}
// A listed defect of a dependency: the scenario ends here.
class Known extends Error { constructor(sig, what) { super(what); this.sig = sig; } }
const guard = (env, f) => { try { f(); } catch (e) { if (!(e instanceof Known)) throw e; env.knowns.push({ prop: 'L04', sig: e.sig, what: e.message }); } };
function finish(a) { a.ops(3); a.run(); a.ops(2); a.upgrade(); a.run(); a.audit('at the end'); a.s.fullAudit(); if (a.s.subs.length === 1) a.s.replayAudit(); }
// every call of the archive job fails in every way
const CASES = []; for (const method of METHODS) for (const mode of [...Object.keys(F), 'refuse']) for (const skip of method === 'insert_blocks' ? [0, 1, 4] : [0]) for (const times of [1, 2, 3, 6, 40]) CASES.push({ method, mode, skip, times });
function archiveFaults(spec, env) {
  for (let i = spec.index * spec.per; i < Math.min(CASES.length, (spec.index + 1) * spec.per); i++) guard(env, () => {
    const c = CASES[i], a = new Archive(env, spec); if (env.rng.chance(0.4)) { a.ops(6); a.run(); } a.ops(env.rng.range(6, 10)); a.run(c); if (a.hits || a.faults) a.cnt('fault cases hit'); a.cnt('fault cases'); env.distinct.add(js(c) + a.s.blocks.length); if (env.rng.chance(0.5)) a.upgrade(); a.run(); finish(a);
  });
}
function archive(spec, env) {
  guard(env, () => {
    const a = new Archive(env, spec), r = env.rng;
    for (let k = 0; k < spec.steps; k++) switch (r.weighted({ ops: 6, run: 3, upgrade: 1.2, fault: 1.2, busy: 1.2, wait: 1, ...(spec.weights || {}) })) {
      case 'ops': a.ops(r.range(1, 8)); break; case 'run': a.run(); break; case 'upgrade': a.upgrade(); break;
      case 'wait': a.w.elapse(BigInt(r.range(1, 130)) * SEC); a.audit('later'); break;
      case 'fault': a.run({ method: r.pick([null, ...METHODS]), mode: r.weighted({ reject: 4, rejectSys: 4, refuse: 4, lose: 1, unknown: 1, garbage: 1 }), skip: r.int(4), times: r.pick([1, 2, 3, 3, 9]) }); break;
      case 'busy': a.busy(r.pick(METHODS), r.int(3), r.range(1, 5)); break;
    }
    finish(a);
  });
}
module.exports = { Archive, METHODS, F, CASES, archive, archiveFaults };
