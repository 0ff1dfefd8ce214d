'use strict';
// What each check runs. plan(tier) gives groups of scenarios; n is the number of scenarios of a group.
const L = (profile, n, steps, o = {}) => ({ engine: 'ledger', profile, n, steps, ...o });
const Q = (tier, q, t) => (tier === 'thorough' ? t : q);
const SIM = ['the production wasm built from the working tree runs in a model of a replica (message atomicity, call contexts, timers, upgrades, certified data) written for this framework', 'Candid encoding and decoding of the harness', 'the Rust compiler and the third-party crates the canister links'];
const RULE = 'one evaluation is one call (or pause, or upgrade) of a seeded random history on the real canister, judged by the reference model and followed by audits of its observable state; distinct and non-trivial: pairs of (kind of call, numbers of accepted and refused items, abstract ledger state after it) not seen before in which at least one item was accepted or refused for a modelled reason';
const mk = (id, profiles, o = {}) => ({
  technique: o.technique || 'runtime monitor: online reference model over random histories of the real wasm canister',
  needs: o.needs || ['core_nft/prod'], rule: o.rule || RULE, assumptions: SIM.concat(o.assumptions || []), require: o.require, note: o.note,
  plan: tier => [...profiles.map(([p, w, extra]) => L(p, Q(tier, Math.round((o.q || 120) * w), Math.round((o.q || 120) * w * 40)) | 0, Q(tier, 80, 160), extra || {})),
    // ledgers with hundreds of tokens and long approval lists
    // calls in quick succession, many of which the log refuses
    ...(o.rapid || []).map(([p, n, extra]) => L(p, Q(tier, n, n * 40), Q(tier, 80, 160), { pauses: { none: 60, few: 20, mid: 20 }, ...(extra || {}) })),
    ...(o.crowd || []).map(([p, n, extra]) => L(p, Q(tier, n, n * 40), Q(tier, 30, 60), { crowd: true, ...(extra || {}) }))],
});
const OK = ['transfer.ok', 'transferFrom.ok', 'approveTok.ok', 'approveColl.ok', 'mint.ok', 'burn.ok'];
const CHECKS = {
  C01: mk('C01', [['owners', 0.6], ['mint', 0.2], ['upgrade', 0.2]], { crowd: [['owners', 10]], rapid: [['owners', 10]], require: ['crowds', 'transfer.ok', 'transferFrom.ok', 'burn.ok', 'mint.ok', 'owner answers'] }),
  C02: mk('C02', [['owners', 0.3], ['approvals', 0.5], ['base', 0.2]], { crowd: [['approvals', 8]], require: ['crowds', ...OK, 'refused: not owner', 'refused: anon recipient', 'moved by collection approval', 'moved by token approval', 'moved by owner on behalf'] }),
  C03: mk('C03', [['approvals', 0.8], ['owners', 0.2]], { rapid: [['approvals', 10]], crowd: [['approvals', 10]], require: ['crowds', ...OK, 'refused: unauthorised after C03'] }),
  C04: mk('C04', [['approvals', 0.8], ['base', 0.2]], { crowd: [['approvals', 12]], require: ['crowds', ...OK, 'refused: limit', 'refused: anon spender', 'moved by token approval', 'moved by collection approval'] }),
  C05: mk('C05', [['approvals', 0.6], ['approvals', 0.4, { weights: { revokeTok: 26, revokeColl: 22, burn: 1 } }]], { rapid: [['approvals', 10]], crowd: [['approvals', 12, { weights: { revokeTok: 26, revokeColl: 22, burn: 1 } }]], require: ['crowds', 'revoked one', 'revoked all', 'refused: unauthorised after C05'] }),
  C06: mk('C06', [['approvals', 0.9], ['upgrade', 0.1]], { crowd: [['approvals', 16]], require: ['crowds', 'approval entries checked', 'approval checks yes', 'approval pages'] }),
  L01: mk('L01', [['log', 0.4, { subs: false }], ['log', 0.4, { subs: true }], ['meta', 0.2]], { crowd: [['log', 10]], rapid: [['log', 10]], require: ['crowds', ...OK, 'blocks checked', 'updateMeta.ok', 'revokeTok.ok', 'revokeColl.ok'] }),
  L02: mk('L02', [['log', 0.7], ['upgrade', 0.3]], { crowd: [['log', 10]], require: ['crowds', 'blocks checked', 'range reads', 'requests of several ranges'] }),
  L03: mk('L03', [['log', 0.5, { subs: false }], ['approvals', 0.4, { subs: false }], ['log', 0.1, { subs: true }]], { crowd: [['log', 10, { subs: false }]], require: ['crowds', 'blocks replayed', 'replayed tokens', 'replayed approval lists'] }),
  D01: mk('D01', [['replay', 1]], { require: ['replay refused'] }),
  D02: mk('D02', [['timing', 1]], { require: ['refused: TooOld', 'refused: CreatedInFuture'] }),
  D03: mk('D03', [['limits', 0.7], ['mint', 0.3]], { require: ['refused: memo', 'refused: mint batch', 'refused: anonymous', 'refused: it is larger than the batch size of an atomic ledger'] }),
  D04: mk('D04', [['rate', 1]], { require: ['refused: rate'] }),
  M01: mk('M01', [['mint', 1]], { crowd: [['mint', 10]], rapid: [['mint', 12]], require: ['crowds', 'mint refused by the log', 'mint.ok', 'refused: cap', 'burn.ok', 'upgrades'] }),
  M02: mk('M02', [['base', 0.35], ['limits', 0.35], ['meta', 0.3]], { crowd: [['meta', 6], ['base', 6]], rapid: [['meta', 16, { weights: { mint: 30, updateMeta: 20, burst: 0, burn: 10 } }], ['approvals', 12]], require: ['crowds', 'mint refused by the log', 'mint.err', 'updateMeta.err', 'transfer.err', 'transferFrom.err', 'approveTok.err', 'burn.err'] }),
  M03: mk('M03', [['meta', 1]], { crowd: [['meta', 12]], require: ['crowds', 'updateMeta.ok', 'mint.ok', 'metadata reads', 'upgrades'] }),
  M04: mk('M04', [['settings', 0.7], ['limits', 0.3, { small: 0.7 }]], { crowd: [['settings', 10]], require: ['crowds', 'updateColl.ok', 'settings read'] }),
  P01: mk('P01', [['perms', 1]], { require: ['denied mint', 'denied update_nft_metadata', 'denied update_collection_metadata', 'denied grant_permission', 'denied revoke_permission'] }),
  P02: mk('P02', [['perms', 1]], { require: ['grant_permission.ok', 'revoke_permission.ok', 'permission reads'] }),
  Q01: mk('Q01', [['owners', 0.4, { small: 0.6 }], ['settings', 0.3], ['mint', 0.3, { small: 0.6 }]], { crowd: [['owners', 12], ['settings', 8]], require: ['crowds', 'pages', 'oversized pages', 'oversized batches'] }),
};
const UP = (id, groups, o = {}) => ({ technique: o.technique || 'runtime monitor: reference model of uploads over random and faulty histories of the real collection and storage canisters', level: o.level, needs: ['core_nft/prod'], assumptions: SIM.concat(['the storage canister is the binary of the repository', ...(o.assumptions || [])]), require: o.require, note: o.note, rule: o.rule || 'one evaluation is one upload, management or HTTP move of a seeded random history, judged by the reference model, followed by audits of every status, list page, redirect, certificate and (in full audits) the bytes behind every redirect; distinct and non-trivial: pairs of (move and its outcome, multiset of the states and progress of all uploads) not seen before',
  plan: tier => groups.map(([spec, q, t]) => ({ ...spec, n: Q(tier, q, t), steps: spec.engine === 'uploads' ? Q(tier, 50, 90) : undefined })) });
const up = (profile, o = {}) => ({ engine: 'uploads', profile, ...o });
const { CASES } = require('./uploads');
Object.assign(CHECKS, {
  U01: UP('U01', [[up('base'), 110, 3000], [up('gc'), 70, 2500]], { require: ['finalize.ok', 'cancel.ok', 'init of used path refused', 'finalize of bad content refused', 'chunk of finalised refused', 'dropped by the clean-up', 'kept by the clean-up', 'upload pages'] }),
  U02: UP('U02', [[up('base'), 90, 2500], [up('upgrade'), 60, 2500]], { require: ['finalize.ok', 'files fetched', 'redirects', 'unknown paths', 'upgrades', 'unservable path refused'] }),
  U03: UP('U03', [[{ engine: 'uploadFaults', per: 12 }, Math.ceil(CASES.length / 12), Math.ceil(CASES.length / 12)], [up('faults', { faults: 0.35 }), 60, 4000]], { level: 'fault_enumeration', technique: 'runtime monitor: fault injection at every inter-canister call of every upload operation of the real canisters', require: ['fault positions', 'finalize.ok despite a fault', 'init failed by a fault', 'recovered uploads'], note: 'Every combination of upload operation, position of the failing call, kind of failure (two rejections, two lost answers, an undecodable answer, a call the system refuses to send) and number of consecutive failures is run; beyond that, random histories with faults. Trusts the replica model in sim/.' }),
  G01: UP('G01', [[up('lock'), 110, 4000], [up('lock', { faults: 0.3 }), 40, 2500]], { technique: 'runtime monitor: management calls held while waiting, with every further call probing the lock', require: ['pending calls observed', 'lock released', 'upgrades with a pending call', 'refused as concurrent: mint', 'refused as concurrent: burn_nft', 'refused as concurrent: update_nft_metadata', 'refused as concurrent: update_collection_metadata', 'refused as concurrent: grant_permission', 'refused as concurrent: revoke_permission', 'refused as concurrent: init_upload', 'refused as concurrent: store_chunk', 'refused as concurrent: finalize_upload', 'refused as concurrent: cancel_upload'] }),
  H01: UP('H01', [[up('base'), 60, 2000], [up('upgrade'), 80, 3000]], { technique: 'runtime monitor: an independent verifier of certified HTTP answers over random histories of the real canisters', require: ['certificates verified', 'pages verified', 'unknown paths', 'upgrades'] }),
});
// ---- checks whose scenarios are not plain ledger or upload histories
const X = (o, groups) => ({ ...o, assumptions: SIM.concat(o.assumptions || []), plan: tier => groups.map(([spec, q, t]) => ({ ...spec, n: Q(tier, q, t), steps: spec.steps ? Q(tier, spec.steps, Math.round(spec.steps * (spec.grow || 1.6))) : undefined })) });
const INDEX = ['core_nft/prod', 'index_icrc7/prod'];
const IRULE = 'one evaluation is one query of the index compared with a brute-force answer computed from the blocks of the ledger; distinct and non-trivial: states of the index (number of keys, log length, participants, recent moves) audited completely';
const ix = (o = {}) => ({ engine: 'index', steps: 30, ...o });
const ARCH = { rule: 'one evaluation is one complete audit of the log (every block fetched locally or through the archive references, compared with the recorded content, hash chain and numbering); distinct and non-trivial: ledger states at the audits', evalKey: 'archive audits', needs: ['core_nft/prod'] };
const cases = require('./archive').CASES.length;
Object.assign(CHECKS, {
  L04: X({ ...ARCH, level: 'fault_enumeration', technique: 'runtime monitor: audits of the whole log while the archiving job of the real canister runs under injected faults, held answers and upgrades', require: ['archive runs', 'archive runs held', 'audits with archives', 'fault cases hit', 'lag checks', 'reads while archiving'] },
    [[{ engine: 'archiveFaults', per: 10 }, Math.ceil(cases / 10), Math.ceil(cases / 10)], [{ engine: 'archive', steps: 30 }, 90, 2500]]),
  I01: X({ needs: INDEX, rule: IRULE, evalKey: 'index queries', technique: 'runtime monitor: brute-force oracle over the ledger log judges every answer of the real index canister', require: ['caught up', 'complete keys', 'blocks compared', 'combined filters with matches', 'index upgrades', 'ledger upgrades', 'archived logs'] },
    [[ix(), 110, 3000], [ix({ bulk: true, steps: 12 }), 24, 600], [ix({ late: true, steps: 16 }), 40, 1000]]),
  I02: X({ needs: INDEX, rule: IRULE, evalKey: 'index queries', technique: 'runtime monitor: brute-force oracle over the ledger log judges every page, order and filter combination asked of the real index canister', require: ['queries with matches', 'combined filters with matches', 'page walks', 'range queries', 'extreme ranges'] },
    [[ix({ weights: { queries: 20, pages: 8 } }), 160, 4000], [ix({ bulk: true, steps: 14, weights: { queries: 20, pages: 8, ops: 3 } }), 40, 1000]]),
  I03: X({ needs: INDEX, rule: IRULE, evalKey: 'index queries', technique: 'runtime monitor: brute-force oracle over the ledger log while fetches fail, answers are held back, job runs overlap and the index is upgraded', require: ['overlapping runs', 'index upgrades', 'queries failed by a fault', 'days', 'archived logs', 'caught up', 'cold queries with faults'] },
    [[ix({ weights: { faulty: 9, overlap: 9, upgrade: 4, cold: 4 } }), 130, 4000], [ix({ late: true, steps: 20, weights: { faulty: 9, overlap: 9, archive: 2, cold: 5 } }), 50, 1500], [ix({ bulk: true, steps: 12, weights: { faulty: 6, overlap: 6, cold: 3 } }), 24, 800]]),
  X01: X({ needs: ['core_nft/prod'], evalKey: 'answers compared after an upgrade', rule: 'one evaluation is one answer of the upgraded canister compared with the answer of its twin that was never upgraded and received the same calls; distinct and non-trivial: (method, mode, abstract answer) pairs and ledger states', technique: 'runtime monitor: differential twin of the real canister, one of the two upgraded again and again', require: ['answers compared after an upgrade', 'twin upgrades'] },
    [...[['base', 14], ['approvals', 14], ['rate', 12], ['perms', 12], ['meta', 12], ['settings', 10], ['replay', 12], ['log', 8]].map(([p, n]) => [{ engine: 'upgradeTwin', profile: p, steps: 70, quickUpgrade: true, weights: { upgrade: 15 } }, n, n * 40]),
      [{ engine: 'upgradeTwin', inner: 'uploads', profile: 'upgrade', steps: 45, weights: { time: 0, pending: 0 } }, 26, 900], [{ engine: 'upgradeTwin', profile: 'approvals', steps: 30, crowd: true, quickUpgrade: true, weights: { upgrade: 15 } }, 5, 200], [{ engine: 'upgradeTwin', inner: 'fuzz', steps: 120 }, 14, 500], [{ engine: 'archive', steps: 24, weights: { upgrade: 8 } }, 10, 400]]),
  X02: X({ needs: INDEX, evalKey: 'fuzzed calls', rule: 'one evaluation is one call of a method with generated arguments of its type, which must be answered; distinct and non-trivial: (method, mode, shape of the answer)', technique: 'runtime monitor: typed fuzzing of every method of the real canisters with a monitor for traps, lost answers and undecodable answers', require: ['refused: permission', 'refused: documented limit', 'index calls', 'malformed arguments', 'upgrades', 'call http_request', 'call mint', 'call icrc37_transfer_from'] },
    [[{ engine: 'fuzz', withIndex: true, steps: 260 }, 60, 3000], [{ engine: 'fuzz', steps: 260, pure: true }, 50, 3000], [L('timing', 0, 80), 14, 600], [L('meta', 0, 80), 14, 600], [L('limits', 0, 80), 8, 600], [{ engine: 'archive', steps: 20 }, 8, 200]]),
  X03: X({ needs: [...INDEX, 'core_nft/checked', 'index_icrc7/checked'], evalKey: 'answers compared', rule: 'one evaluation is one answer of the build with overflow and debug assertions compared with the answer of the production build to the same call in the same history; distinct and non-trivial: (method, mode, abstract answer) pairs and ledger states', technique: 'sanitizer: the canisters built with overflow checks and debug assertions run in lockstep with the production build', require: ['answers compared', 'index queries'] },
    [...[['timing', 16], ['base', 12], ['limits', 12], ['approvals', 10], ['rate', 10], ['settings', 10], ['meta', 8]].map(([p, n]) => [{ engine: 'checkedTwin', profile: p, steps: 70, quickUpgrade: true }, n, n * 40]),
      [{ engine: 'checkedTwin', profile: 'approvals', steps: 30, crowd: true, quickUpgrade: true }, 4, 150], [{ engine: 'checkedTwin', inner: 'fuzz', withIndex: true, steps: 160 }, 30, 1500], [{ engine: 'checkedTwin', inner: 'uploads', profile: 'base', steps: 40 }, 14, 500], [{ engine: 'checkedTwin', inner: 'index', withIndex: true, steps: 26, weights: { faulty: 0, overlap: 0 } }, 16, 600]]),
  X04: X({ needs: ['core_nft/prod'], evalKey: 'consent requests', rule: 'one evaluation is one consent request with a generated method and argument bytes, its answer judged by an oracle; distinct and non-trivial: (method, size of the batch, device) and kinds of refused requests', technique: 'runtime monitor: typed and mutated argument fuzzing with an oracle for the consent message', require: ['batch counts checked', 'spenders checked', 'consent refused: an unsupported method', 'consent refused: a truncated argument', 'consent refused: an argument of another type', 'consent icrc37_transfer_from'] },
    [[{ engine: 'consent', steps: 300 }, 150, 5000]]),
});
// ---- the command-line tool
const TOOL = { needs: ['core_nft/prod', 'cmdline/host'], evalKey: 'commands', rule: 'one evaluation is one run of the real command-line tool against the real canister behind a model of the HTTPS interface, its exit, output, requests and effects judged; distinct and non-trivial: (command, kind of input, fault, outcome) classes', assumptions: ['the model of the HTTPS interface in sim/gateway.js (request signatures checked, answers certified with a test root key; only the network "local" of the tool is used)'] };
const cl = profile => ({ engine: 'cli', profile, steps: 24 });
Object.assign(CHECKS, {
  T01: X({ ...TOOL, technique: 'runtime monitor: the real tool uploads through a faulty transport, and an oracle compares its exit and output with what the collection serves afterwards', require: ['uploads served', 'uploads failed', 'uploads in several chunks', 'files still served', 'disturbed by storage', 'disturbed by revoke', 'disturbed by upgrade'] }, [[cl('upload'), 80, 2500]]),
  T02: X({ ...TOOL, technique: 'runtime monitor: the real tool mints and changes permissions through a faulty transport, and an oracle compares its exit and output with the state of the collection before and after', require: ['tokens minted by the tool', 'mint commands failed', 'invalid mint commands', 'memos compared', 'lists compared', 'has compared', 'permissions grant done', 'permissions revoke done', 'commands while the collection is busy'] }, [[cl('mint'), 80, 2500]]),
  T03: X({ ...TOOL, technique: 'runtime monitor: generated files, options and prompt answers given to the real tool, judged by an independent validator', require: ['metadata validated: true', 'metadata validated: false', 'metadata created', 'creations refused', 'creations with the input cut'] }, [[cl('files'), 60, 2500]]),
});
// ---- storage canisters and archives; what the collection says about itself
const ST = { needs: ['core_nft/prod'], rule: 'one evaluation is one move (upload call, call of an outsider, archiving, minute of funding, upgrade) of a seeded random history in which every message between the collection and its canisters is judged; distinct and non-trivial: (move and its outcome, states of the storage canisters, archives and uploads) not seen before', assumptions: ['the storage and archive canisters are the binaries of the repository', 'a storage canister is made to report being full by replacing its answer about its size'] };
const st = (profile, o = {}) => ({ engine: 'storage', profile, steps: 40, ...o });
Object.assign(CHECKS, {
  U04: X({ ...ST, technique: 'runtime monitor: every message between the collection and its storage canisters and archives is observed, and outsiders call these canisters directly', require: ['outsider init_upload', 'outsider store_chunk', 'outsider finalize_upload', 'outsider cancel_upload', 'archive outsider calls', 'installations checked', 'lists checked'] },
    [[st('obey'), 100, 4000]]),
  U05: X({ ...ST, technique: 'runtime monitor: reference model of the storage canisters, their room, files and cycles, judging every message the collection sends them', require: ['full canisters passed over', 'files that just fit', 'files too large', 'invalid chunk sizes', 'new canisters without a file', 'topped up after an upgrade', 'archives topped up', 'left alone', 'funding disturbed', 'redirects to the holder'] },
    [[st('reuse'), 80, 3000], [st('reuse', { faults: 0.35 }), 60, 2500], [st('fund'), 70, 3000]]),
  Q02: X({ needs: ['core_nft/prod'], evalKey: 'metrics read', rule: 'one evaluation is one reading of the metrics, logs, traces, standards and block types, compared with the configuration, the model and the log; distinct and non-trivial: (permissions, version, lengths of the lists, blocks, upgrades) not seen before', technique: 'runtime monitor: reference model of the configuration, permissions and log judges the pages and lists describing the collection', require: ['metrics read', 'log pages with entries', 'full logs', 'upgrades', 'standards read', 'block types seen'] },
    ['perms', 'base', 'approvals', 'meta'].map(p => [{ engine: 'describe', profile: p, steps: 40 }, 34, 1500])),
});
const P01l = CHECKS.P01.plan; CHECKS.P01.plan = tier => [...P01l(tier), { engine: 'uploads', profile: 'perms', n: Q(tier, 40, 1500), steps: Q(tier, 50, 90) }];
CHECKS.P01.require.push('storage list reads', 'denied init_upload', 'denied store_chunk', 'denied finalize_upload', 'denied cancel_upload', 'denied get_upload_status', 'denied get_all_uploads');
module.exports = { CHECKS, L, Q, mk, SIM };
