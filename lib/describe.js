'use strict';
// What the collection says about itself: /metrics, /logs, /traces, the supported standards and the
// block types, compared with what was installed, what happened and what the log really contains.
const { Session } = require('./ledger');
const G = require('./gen');
const HTTP = require('./http');
const { Violation, js, sha, tag } = require('./util');
const CODE = ['0000', 'a4f2c91', 'release "1.0"', 'ünïcode\n', '', 'f'.repeat(300)];
const NEEDS = { 'ICRC-7': ['query icrc7_owner_of', 'update icrc7_transfer', 'query icrc7_tokens', 'query icrc7_collection_metadata'], 'ICRC-37': ['update icrc37_approve_tokens', 'update icrc37_transfer_from', 'query icrc37_is_approved'], 'ICRC-3': ['query icrc3_get_blocks', 'query icrc3_get_archives', 'query icrc3_supported_block_types', 'query icrc3_get_tip_certificate'], 'ICRC-10': ['query icrc10_supported_standards'], 'ICRC-21': ['query icrc21_canister_call_consent_message'] };
class Describe {
  constructor(spec, env) {
    const rng = this.rng = env.rng; this.env = env; this.n = env.counters; this.log = env.log = [];
    this.v = this.version(); const init = { ...G.randInit(rng, { perms: true, small: 0.2 }), ...this.v, test_mode: rng.chance(0.5) }; this.test = init.test_mode;
    const o = { rng, wasm: env.wasm('core_nft', spec.build || 'prod'), init, subs: rng.chance(0.5) ? G.SUBS : [null], counters: env.counters, distinct: env.distinct, samples: env.samples, knowns: [], quickUpgrade: true, upgradeArgs: () => (this.v = this.version()) };
    this.s = new Session(o); env.session = this.s; env.init = init; this.gen = new G.Gen(this.s, spec.profile || 'perms', { noArchive: true, weights: { upgrade: 0, burst: 0 } });
    this.logs = { '/logs': [], '/traces': [] };
  }
  version() { const r = this.rng, k = () => r.pick([0, 1, 2, 7, 100, 4294967295]); return { version: { major: k(), minor: k(), patch: k() }, commit_hash: r.pick(CODE) }; }
  cnt(k) { this.n[k] = (this.n[k] || 0) + 1; }
  bad(what, d = {}) { throw new Violation(['Q02'], what, { ...d, recent: this.log.slice(-8) }); }
  page(p) { const r = this.s.c.q(this.s.ctl, 'http_request', HTTP.req(p)); if (r.reject || Number(r.ok.status_code) !== 200) this.bad('the page ' + p + ' is not answered', { r: js(r).slice(0, 200) }); const t = Buffer.from(r.ok.body).toString(); try { return JSON.parse(t.replace(/([:[,]\s*)(\d{16,})(?=\s*[,}\]])/g, '$1"$2"')); } catch (e) { this.bad('the page ' + p + ' is no valid JSON', { t: t.slice(0, 200) }); } }
  look() {
    const s = this.s, c = s.w.canisters.get(s.c.id), m = this.page('/metrics'), i = m.canister_info || {}; this.cnt('metrics read');
    const eq = (what, is, should) => { if (js(is) !== js(should)) this.bad('/metrics reports a wrong ' + what, { is: js(is), should: js(should), upgrades: s.upgrades }); };
    eq('version', i.version && [i.version.major, i.version.minor, i.version.patch], [this.v.version.major, this.v.version.minor, this.v.version.patch]); eq('commit hash', i.commit_hash, this.v.commit_hash); eq('mode', i.test_mode, this.test);
    eq('time', String(i.now), String(s.w.time / 1_000_000n)); eq('cycles balance', String(i.cycles_balance), String(c.cycles));
    const got = Object.entries((m.permissions || {}).user_permissions || {}).map(([p, l]) => [p, [...new Set(l)].sort()]).filter(x => x[1].length).sort(), want = [...s.perms].map(([p, l]) => [p, [...l].sort()]).filter(x => x[1].length).sort(); eq('list of permissions', got, want);
    for (const p of ['/logs', '/traces']) {
      const l = this.page(p); if (!Array.isArray(l)) this.bad('the page ' + p + ' is no list'); const t = l.map(e => sha(js(e))), before = this.logs[p]; let last = 0;
      for (const e of l) { const at = Number(e.timestamp); if (!(at >= last)) this.bad('the entries of ' + p + ' are not in order'); if (at > Number(s.w.time / 1_000_000n)) this.bad('an entry of ' + p + ' lies in the future'); last = at; if (typeof e.message !== 'string' || !e.message) this.bad('an entry of ' + p + ' has no message', { e: js(e) }); }
      if (!l.length && p === '/logs') this.bad('the log of the canister is empty');
      // what was there is still there, except for the oldest entries of a full list
      const pre = d => before.slice(d).every((x, j) => t[j] === x); let d = 0; if (t.length >= 100) while (d < before.length && !pre(d)) d++;
      if (!pre(d)) this.bad('entries of ' + p + ' were lost', { before: before.length, now: t.length, upgrades: s.upgrades }); if (d && d < before.length) this.cnt('full logs');
      this.logs[p] = t; this.cnt('log pages read'); if (t.length > 1) this.cnt('log pages with entries');
    }
    const types = s.q(s.ctl, 'icrc3_supported_block_types', ['Q02']), names = new Set(types.map(x => x.block_type)); if (names.size !== types.length) this.bad('a block type is listed twice', { names: js([...names]) });
    for (const b of s.blocks) { const bt = b.exp && b.exp.btype; if (bt && !names.has(bt)) this.bad('the log holds blocks of a type that is not listed as supported', { type: bt, listed: js([...names]) }); if (bt) this.seen = (this.seen || new Set()).add(bt); } this.n['block types seen'] = Math.max(this.n['block types seen'] || 0, (this.seen || new Set()).size);
    const std = s.q(s.ctl, 'icrc10_supported_standards', ['Q02']).map(x => x.name); for (const [name, ms] of Object.entries(NEEDS)) { if (!std.includes(name)) this.bad('a supported standard is not listed: ' + name, { std: js(std) }); for (const k of ms) if (!c.mod.exports.has('canister_' + k)) this.bad('a listed standard is not implemented: ' + name, { missing: k }); } for (const x of std) this.cnt('standards read');
    this.env.distinct.add(sha(js([names.size, this.v, got, this.logs['/logs'].length, this.logs['/traces'].length > 0, s.upgrades, s.blocks.length])));
  }
  run(steps) {
    this.look();
    for (let k = 0; k < steps; k++) {
      if (this.rng.chance(0.06)) { this.s.step({ k: 'upgrade', adv: 0n }); this.log.push('upgrade ' + js(this.v)); } else { const op = G.late(this.gen.next(), this.s.now); this.s.step(op); this.log.push(op.k); }
      if (this.rng.chance(0.3)) this.look();
    }
    if (this.rng.chance(0.15)) for (let i = 0; i < 56; i++) { this.s.step({ k: 'upgrade', adv: 0n }); if (i % 6 === 0) this.look(); } // fills the log
    this.look(); if (this.env.samples.length < 1) this.env.samples.push({ recent: this.log.slice(-8), version: this.v });
  }
}
function describe(spec, env) { new Describe(spec, env).run(spec.steps); }
module.exports = { describe };
