'use strict';
const { parentPort, workerData } = require('worker_threads');
const fs = require('fs');
const { Rng, Violation } = require('./util');
const { World } = require('../sim/replica');
const { ENGINES } = require('./engines');
const { pack } = require('./pack');
const beat = new Int32Array(workerData.beat), slot = workerData.slot;
World.beat = () => { Atomics.add(beat, slot, 1); };
const loaded = new Map();
function wasm(crate, variant) { const k = crate + '/' + (variant || 'prod'); if (!loaded.has(k)) { if (!workerData.wasm[k]) throw new Error('build ' + k + ' was not prepared'); loaded.set(k, fs.readFileSync(workerData.wasm[k])); } return loaded.get(k); }
async function runJob(job) {
  const env = { rng: new Rng(job.seed), wasm, file: (c, v) => workerData.wasm[c + '/' + v], counters: {}, distinct: new Set(), samples: [], knowns: [], job };
  const out = { job, violation: null, error: null };
  try { await ENGINES[job.spec.engine](job.spec, env); } catch (e) {
    if (e instanceof Violation) out.violation = { tags: e.tags, what: e.what, detail: e.detail };
    else if (e && e.candid) out.violation = { tags: ['X02', job.check], what: 'an answer does not match the interface: ' + e.message, detail: {} };
    else if (e && /message storm/.test(e.message || '')) out.violation = { tags: ['X02', job.check], what: 'the canisters exchange messages without end: ' + e.message, detail: {} };
    else out.error = (e && e.stack) || String(e);
  }
  if (out.violation && env.session) out.trace = pack((env.session.trace || []).map(o => { const { n, t, ...r } = o; return r; }));
  if (out.violation && env.init) out.init = pack(env.init);
  if (out.violation && env.log) out.log = env.log.slice(-400);
  out.counters = env.counters; out.samples = env.samples; out.knowns = env.knowns;
  out.distinct = [...env.distinct];
  return out;
}
parentPort.on('message', async job => { let r; try { r = await runJob(job); } catch (e) { r = { job, error: e.stack || String(e), counters: {}, samples: [], knowns: [], distinct: [] }; } parentPort.postMessage(r); });
