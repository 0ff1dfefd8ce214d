'use strict';
// Runs the scenarios of a check on worker threads and reports.
const { Worker } = require('worker_threads');
const fs = require('fs'), path = require('path'), os = require('os');
const { build, VERIF } = require('./build');
const { CHECKS } = require('./checks');
const { unpack } = require('./pack');
const WORKERS = Math.max(2, Math.min(8, os.cpus().length));
const HANG_S = 150;

function known() { // entries of the known-findings file: property -> Map(sig -> text)
  const m = new Map(); const f = path.join(VERIF, 'known-findings.txt'); if (!fs.existsSync(f)) return m;
  for (const l of fs.readFileSync(f, 'utf8').split('\n')) { const x = /^known: property=(\w+) sig=(\S+) (.*)$/.exec(l); if (x) { if (!m.has(x[1])) m.set(x[1], new Map()); m.get(x[1]).set(x[2], x[3]); } }
  return m;
}
class Pool {
  constructor(wasm, onResult) { this.wasm = wasm; this.onResult = onResult; this.beat = new SharedArrayBuffer(4 * 64); this.view = new Int32Array(this.beat); this.w = []; this.queue = []; this.slots = 0; }
  spawn() {
    const slot = this.slots++ % 64; const w = new Worker(path.join(__dirname, 'worker.js'), { workerData: { wasm: this.wasm, beat: this.beat, slot }, resourceLimits: { maxOldGenerationSizeMb: 3000 } });
    const rec = { w, slot, job: null, last: -1, since: Date.now() }; this.w.push(rec);
    w.on('message', r => { rec.job = null; this.onResult(r); this.feed(rec); });
    w.on('error', e => { const job = rec.job; rec.dead = true; this.w = this.w.filter(x => x !== rec); this.onResult({ job, error: (e && e.stack) || String(e), counters: {}, samples: [], knowns: [], distinct: [] }); if (!this.stopped) { this.spawn(); this.check(); } });
    this.feed(rec); return rec;
  }
  feed(rec) { if (this.stopped || rec.dead) return; if (this.cut && this.cut()) this.queue.length = 0; const j = this.queue.shift(); if (j) { rec.job = j; rec.since = Date.now(); rec.last = -1; rec.w.postMessage(j); } this.check(); }
  check() { if (!this.stopped && !this.queue.length && this.w.every(r => !r.job) && this.done) { const d = this.done; this.done = null; d(); } }
  watch() { for (const r of this.w) { if (!r.job) continue; const b = this.view[r.slot]; if (b !== r.last) { r.last = b; r.since = Date.now(); } else if (Date.now() - r.since > HANG_S * 1000) { const job = r.job; r.job = null; r.dead = true; r.w.terminate(); this.w = this.w.filter(x => x !== r); this.onResult({ job, counters: {}, samples: [], knowns: [], distinct: [], violation: { tags: ['X02', job.check], what: 'a call did not finish within ' + HANG_S + ' s', detail: {} } }); if (!this.stopped) this.spawn(); } } }
  async run(jobs, cut) {
    this.queue = jobs.slice(); this.cut = cut;
    if (!jobs.length) return;
    const p = new Promise(res => { this.done = res; });
    const n = Math.min(WORKERS, jobs.length); while (this.w.length < n) this.spawn(); for (const r of this.w) if (!r.job) this.feed(r);
    const t = setInterval(() => this.watch(), 2000); await p; clearInterval(t);
  }
  stop() { this.queue.length = 0; if (this.done) { const d = this.done; this.done = null; d(); } }
  async close() { this.stopped = true; await Promise.all(this.w.map(r => r.w.terminate())); }
}
function prepare(needs) { const m = {}; for (const k of needs) { const [c, v] = k.split('/'); m[k] = build(c, v); } return m; }
function jobsOf(id, tier, seed) {
  const c = CHECKS[id], jobs = []; const groups = c.plan(tier);
  const max = Math.max(...groups.map(g => g.n)); // interleave the groups
  for (let i = 0; i < max; i++) for (let k = 0; k < groups.length; k++) { const g = groups[k]; const every = max / g.n; if (Math.floor(i / every) === Math.floor((i - 1) / every) && i !== 0) continue; const j = Math.floor(i / every); if (j >= g.n) continue; const { n, ...spec } = g; jobs.push({ check: id, seed: [id, seed, k, spec.engine, spec.profile || '', j].join('/'), spec: { ...spec, index: j } }); }
  return jobs;
}
async function check(id, tier) {
  const t0 = Date.now(), c = CHECKS[id]; if (!c) { console.error('unknown check ' + id); return 2; }
  const seed = Number.parseInt(process.env.VERIF_SEED || '1', 10) || 0;
  let wasm; try { wasm = prepare(c.needs); } catch (e) { console.error(String(e.message || e)); return 3; }
  const capS = tier === 'thorough' ? (Number(process.env.VF_CAP) || 2400) : 330, tRun = Date.now();
  const K = known().get(id) || new Map(), seenKnown = new Set(), tot = {}, distinct = new Set(), samples = [], others = new Map(), errors = []; let evals = 0, bad = null, truncated = false, done = 0;
  const jobs = jobsOf(id, tier, seed);
  const pool = new Pool(wasm, r => {
    if (bad) return;
    done++;
    for (const [k, v] of Object.entries(r.counters)) tot[k] = (tot[k] || 0) + v;
    for (const h of r.distinct) distinct.add(h); for (const s of r.samples) if (samples.length < 4) samples.push({ scenario: r.job && r.job.seed, ...s });
    if (r.error) { errors.push({ job: r.job, error: r.error }); if (errors.length > 2) pool.stop(); return; }
    for (const k of r.knowns) { if (k.prop !== id) continue; if (K.has(k.sig)) { seenKnown.add(k.sig); tot['known finding ' + k.sig] = (tot['known finding ' + k.sig] || 0) + 1; } else if (!bad) { bad = { r, v: { tags: [id], what: k.what, detail: { sig: k.sig } } }; } }
    if (r.violation) { if (r.violation.tags.includes(id)) { if (!bad) bad = { r, v: r.violation }; } else { const key = r.violation.tags.join('+') + ': ' + r.violation.what; others.set(key, (others.get(key) || 0) + 1); } }
    if (bad) pool.stop();
  });
  await pool.run(jobs, () => { if ((Date.now() - tRun) / 1000 > capS) { truncated = true; return true; } return !!bad; });
  let replay = null;
  if (bad) {
    replay = path.join('replays', id + '-' + Date.now() + '.json'); fs.mkdirSync(path.join(VERIF, 'replays'), { recursive: true });
    const rec = { check: id, job: bad.r.job, violation: bad.v, init: bad.r.init, trace: bad.r.trace, log: bad.r.log };
    if (bad.r.trace && bad.r.init && bad.r.job.spec.engine === 'ledger') { const m = await shrink(wasm, rec, tier === 'thorough' ? 60 : 15); if (m) { rec.minimal = m; } }
    fs.writeFileSync(path.join(VERIF, replay), JSON.stringify(rec, null, 1));
  }
  await pool.close();
  evals = tot[c.evalKey || 'ops'] || 0;
  const ev = { property: id, tier, seed, level: c.level || 'exploration', coverage: { evaluations: evals, distinct_nontrivial: distinct.size, rule: c.rule, samples: samples.length ? samples : [{ note: 'no sample recorded' }], scenarios: done, scenarios_planned: jobs.length, cut_short_by_time: truncated, observed: Object.fromEntries(Object.entries(tot).sort()), ...(c.extra ? c.extra(tot) : {}) }, assumptions: c.assumptions, wall_s: (Date.now() - t0) / 1000, violations: bad ? 1 : 0 };
  if (others.size) ev.coverage.violations_of_other_properties = Object.fromEntries([...others].slice(0, 10));
  if (errors.length) ev.coverage.errors = errors.slice(0, 3).map(e => ({ scenario: e.job && e.job.seed, error: e.error.slice(0, 2000) }));
  fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true }); fs.writeFileSync(path.join(VERIF, 'evidence', id + '.json'), JSON.stringify(ev, null, 1));
  for (const [sig, text] of K) { if (seenKnown.has(sig)) console.log('KNOWN-FINDING: property=' + id + ' ' + text); else if (!bad) console.log('note: the known finding ' + sig + ' was not seen in this run'); }
  for (const [k, n] of [...others].slice(0, 5)) console.log('note: observed ' + n + 'x a violation of other properties: ' + k.slice(0, 300));
  if (bad) { console.log('# ' + bad.v.what.slice(0, 1500)); console.log('# ' + JSON.stringify(bad.v.detail).slice(0, 1500)); console.log('# scenario ' + bad.r.job.seed); console.log('VIOLATION property=' + id + ' replay=' + replay); return 1; }
  if (errors.length) { for (const e of errors.slice(0, 3)) console.error('error in ' + (e.job && e.job.seed) + ': ' + e.error); return 2; }
  const starved = (c.require || []).filter(k => !tot[k]); // the run must have seen what it claims to judge
  if (starved.length && !others.size) { console.error('the workload never produced: ' + starved.join(', ')); if (process.env.VF_STRICT) return 2; }
  console.log('property ' + id + ' held: ' + done + ' scenarios, ' + evals + ' operations, ' + distinct.size + ' distinct non-trivial, ' + ((Date.now() - t0) / 1000).toFixed(1) + ' s');
  return 0;
}
// greedily drops operations from a failing ledger scenario
async function shrink(wasm, rec, budgetS) {
  let ops = rec.trace, init = rec.init; const end = Date.now() + budgetS * 1000; const base = { ...rec.job.spec, init, script: null, subs: undefined };
  const attempt = async list => { let res = null; const pool = new Pool(wasm, r => { res = r; }); const t = setTimeout(() => pool.stop(), 20000); await pool.run([{ ...rec.job, seed: rec.job.seed, spec: { ...base, script: list } }]); clearTimeout(t); await pool.close(); return res && res.violation && res.violation.tags.includes(rec.check) ? res.violation : null; };
  let v = await attempt(ops); if (!v) return null;
  let step = Math.max(1, ops.length >> 1);
  while (step >= 1 && Date.now() < end) { let i = 0; while (i < ops.length && Date.now() < end) { const t = ops.slice(0, i).concat(ops.slice(i + step)); const x = t.length ? await attempt(t) : null; if (x) { ops = t; v = x; } else i += step; } step >>= 1; }
  return { violation: v, operations: ops.length, job: { ...rec.job, spec: { ...base, script: ops } } };
}
async function replay(file) {
  const rec = JSON.parse(fs.readFileSync(file, 'utf8')); const job = rec.minimal ? rec.minimal.job : rec.job; const wasm = prepare(CHECKS[rec.check].needs); let res = null;
  const pool = new Pool(wasm, r => { res = r; }); await pool.run([job]); await pool.close();
  if (res.error) { console.error(res.error); return 2; }
  if (res.violation) { console.log('# ' + res.violation.what); console.log('# ' + JSON.stringify(res.violation.detail)); console.log('VIOLATION property=' + rec.check + ' replay=' + file); return 1; }
  const k = res.knowns.filter(x => x.prop === rec.check); if (k.length) { console.log('# ' + k[0].what); }
  console.log('the scenario runs without a violation'); return 0;
}
module.exports = { check, replay, jobsOf, CHECKS };
