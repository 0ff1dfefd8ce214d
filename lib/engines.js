'use strict';
// Scenario engines: each runs one deterministic scenario of a check and throws a Violation.
const { Session } = require('./ledger');
const G = require('./gen');
const { unpack } = require('./pack');

const P = require('../sim/principal'), MS = 1_000_000n;
// A ledger with hundreds of tokens, accounts owning many of them, and long approval lists.
const CROWD = ['alice', 'bob', 'carol', 'dave', 'erin', 'frank', 'grace', 'heidi'].map(P.user).concat(P.canister(77), P.canister(1n << 60n)); // two of them canisters
function crowded(rng, init) {
  for (const k of ['supply_cap', 'max_update_batch_size', 'max_query_batch_size', 'max_take_value', 'default_take_value', 'tx_window']) delete init[k];
  if (rng.chance(0.4)) init.max_query_batch_size = BigInt(rng.pick([60, 130, 300, 1000])); if (rng.chance(0.4)) { init.max_take_value = BigInt(rng.pick([90, 150, 400, 1000])); if (rng.chance(0.7)) init.default_take_value = BigInt(rng.range(1, Number(init.max_take_value))); }
  if (rng.chance(0.5)) init.max_update_batch_size = BigInt(rng.pick([12, 40, 101, 150])); if (rng.chance(0.3)) init.supply_cap = BigInt(rng.pick([130, 300, 1000, 10001])); // beyond the defaults
  init.approval_init = { max_approvals_per_token_or_collection: rng.chance(0.7) ? BigInt(rng.pick([11, 15, 40, 101])) : null, max_revoke_approvals: rng.chance(0.5) ? BigInt(rng.pick([11, 30])) : null };
}
function crowd(s, g, rng) {
  const rich = s.pool().filter(a => a.owner !== P.ANON), few = rng.shuffle(rich).slice(0, 3), n0 = rng.pick([110, 140, 180, 270]), n = s.cap < BigInt(n0) ? Number(s.cap) : n0; s.light = true;
  for (let i = 0; i < 3 * n && s.tokens.size < n; i++) s.step({ k: 'mint', adv: 150n * MS, caller: s.ctl, reqs: Array.from({ length: Math.min(Number(s.maxBatch), n - s.tokens.size, 4) }, () => ({ token_owner: rng.pick(few), metadata: rng.chance(0.1) ? G.metadata(rng) : [], memo: null })) });
  const t = rng.pick([...s.tokens.values()]), all = rng.shuffle(rich.slice()), want = Math.min(all.length, rng.range(8, 24));
  const info = (from, sp) => ({ spender: sp, from_subaccount: from.subaccount, expires_at: rng.chance(0.3) ? s.now + BigInt(rng.range(1, 4000)) * MS : null, memo: null, created_at_time: null });
  for (let i = 0; i < want; i++) { s.step(G.late({ k: 'approveTok', caller: t.owner.owner, adv: 61n * MS, args: [{ token_id: t.id, approval_info: info(t.owner, all[i]) }] }, s.now)); s.step(G.late({ k: 'approveColl', caller: t.owner.owner, adv: 61n * MS, args: [{ approval_info: info(t.owner, all[all.length - 1 - i]) }] }, s.now)); }
  s.light = false; g.hot = String(t.id); s.cnt('crowds'); s.fullAudit();
}

// Random operations on one ledger against the reference model.
function ledger(spec, env) {
  const rng = env.rng, subs = spec.subs === undefined ? (rng.chance(0.65) ? G.SUBS : [null]) : spec.subs ? G.SUBS : [null];
  const init = spec.init ? unpack(spec.init) : G.randInit(rng, { perms: spec.perms || spec.profile === 'perms', small: spec.small, force: spec.force && unpack(spec.force) });
  const users = spec.crowd ? CROWD.slice() : undefined; if (spec.crowd && !spec.init) crowded(rng, init);
  const s = new Session({ rng, users, wasm: env.wasm('core_nft', spec.build || 'prod'), init, subs, counters: env.counters, distinct: env.distinct, samples: env.samples, knowns: env.knowns, noUpgrade: spec.noUpgrade, quickUpgrade: spec.quickUpgrade, world: spec.world });
  env.session = s; env.init = init;
  const every = spec.auditEvery || 20;
  if (spec.script) {
    const ops = unpack(spec.script);
    ops.forEach((op, i) => { s.step(op); if (i % every === every - 1) s.fullAudit(); });
  } else {
    const g = new G.Gen(s, spec.profile, { bigLimits: spec.profile === 'settings' || spec.profile === 'limits', weights: spec.weights, pauses: spec.pauses, noArchive: spec.noArchive });
    if (spec.crowd) crowd(s, g, rng);
    for (let k = 0; k < spec.steps; k++) { s.step(G.late(g.next(), s.now)); if (k % every === every - 1) s.fullAudit(); }
  }
  s.fullAudit();
  if (subs.length === 1) s.replayAudit();
  return s;
}
const { uploads, uploadFaults } = require('./uploads');
const { index } = require('./index');
const { archive, archiveFaults } = require('./archive');
const { fuzz, consent } = require('./fuzz');
const { upgradeTwin, checkedTwin } = require('./twin');
const { cli } = require('./cli');
const { describe } = require('./describe');
const { storage } = require('./storage');
const ENGINES = { cli, describe, storage, upgradeTwin, checkedTwin, fuzz, consent, archive, archiveFaults, ledger, uploads, uploadFaults, index };
module.exports = { ENGINES };
