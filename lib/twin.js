'use strict';
// Two worlds in lockstep: every call goes to both and the answers must be the same.
// X01: only the first is ever upgraded. X03: the second runs the build with overflow and debug assertions.
const { World } = require('../sim/replica');
const { T, encode, decode } = require('../sim/core');
const { Violation, js, tag } = require('./util');
const G = require('./gen');
const SEC = 1000000000n;
const byText = a => a.map(x => js(x)).sort();
const BLOCKS = T.vec(T.record({ start: T.nat, length: T.nat }));

class TwinWorld {
  constructor(o) {
    this.a = new World({ time: o.time }); this.b = new World({ time: o.time }); this.o = o; this.tag = o.tag; this.own = new Set(); this.pending = []; this.n = o.counters; this.upgrades = 0; this.log = [];
  }
  get time() { return this.a.time; } set time(t) { this.a.time = this.b.time = t; }
  get canisters() { return this.a.canisters; } get queue() { return this.a.queue; } get stats() { return this.a.stats; } get mgmtLog() { return this.a.mgmtLog; }
  cnt(k) { this.n[k] = (this.n[k] || 0) + 1; }
  differ(what, d) { throw new Violation([this.tag], what, { ...d, recent: this.log.slice(-12) }); }
  createCanister(c) { const x = this.a.createCanister(c), y = this.b.createCanister(c); if (x !== y) throw new Error('twin: canister names differ'); this.own.add(x); return x; }
  install(id, wasm, arg, caller) {
    const x = this.a.install(id, wasm, arg, caller), y = this.b.install(id, this.o.map ? this.o.map(wasm) : wasm, arg, caller);
    if (x.ok !== y.ok) this.differ('one build can be installed and the other not', { first: x.trap, second: y.trap }); return x;
  }
  upgrade(id, wasm, arg, caller) {
    const x = this.a.upgrade(id, wasm, arg, caller); this.upgrades++; this.log.push('upgrade');
    if (this.o.upgradeBoth) { const y = this.b.upgrade(id, wasm && this.o.map ? this.o.map(wasm) : wasm, arg, caller); if (x.ok !== y.ok) this.differ('the upgrade works with one build only', { first: x.trap, second: y.trap }); }
    else if (!x.ok) this.differ('the upgrade traps', { trap: x.trap });
    return x;
  }
  // replies, brought to a form that does not depend on the order of unordered lists or on where blocks are kept
  canon(w, id, method, r, arg) {
    if (r.reply === undefined) return 'rejected ' + r.reject[0];
    let v; try { v = decode(r.reply)[0]; } catch (e) { return 'hex ' + r.reply.toString('hex'); }
    if (!this.own.has(id)) return js(v);
    switch (method) {
      case 'icrc3_get_blocks': if (!v || !v.blocks) return js(v); return js({ n: v.log_length, blocks: this.resolve(w, v) });
      case 'icrc3_get_archives': return this.o.upgradeBoth ? js(byText(v || [])) : '';
      case 'icrc3_get_tip_certificate': { const c = v && v.certificate ? 1 : 0; return 'certificate ' + c + ' ' + (v && v.hash_tree ? v.hash_tree.toString('hex') : ''); }
      case 'get_user_permissions': case 'icrc7_collection_metadata': case 'icrc10_supported_standards': case 'icrc3_supported_block_types': return Array.isArray(v) ? js(byText(v)) : js(sortDeep(v));
      case 'icrc37_get_token_approvals': case 'icrc37_get_collection_approvals': {
        // the list has no order: compared when the whole of it was asked for
        if (!Array.isArray(v)) return js(v); const a = decode(arg); if (a[1] !== null) return 'a later page'; return a[2] !== null && BigInt(v.length) >= a[2] ? 'a page of ' + v.length : js(byText(v));
      }
      case 'get_all_uploads': { const a = decode(arg), l = v && v.Ok; if (!Array.isArray(l)) return js(sortDeep(v)); return (a[0] === null || a[0] === 0n) && (a[1] === null || BigInt(l.length) < a[1]) ? js(sortDeep(l)) : 'a page of ' + l.length; }
      case 'http_request': {
        const h = (v.headers || []).map(x => Array.isArray(x) ? x : [x[0], x[1]]).filter(x => !/^ic-certificate$/i.test(x[0])).map(x => x[0].toLowerCase() + ': ' + x[1]).sort();
        const own = /^\/?(metrics|logs?|traces?)([?\/].*)?$/.test(urlOf(arg)); return js({ s: v.status_code, h: own ? h.filter(x => !/^content-length/.test(x)) : h, body: own ? '' : v.body });
      }
    }
    return js(v);
  }
  resolve(w, v) {
    const out = v.blocks.map(b => [BigInt(b.id), js(b.block)]);
    for (const a of v.archived_blocks || []) {
      const cb = a.callback, cid = Array.isArray(cb) ? cb[0] : cb.principal || cb.canister || cb[0], m = Array.isArray(cb) ? cb[1] : cb.method || cb[1];
      const r = w.query(cid, m, encode([BLOCKS], [a.args]), 'aaaaa-aa'); if (r.reply === undefined) { out.push([-1n, 'archive does not answer']); continue; }
      for (const b of decode(r.reply)[0].blocks) out.push([BigInt(b.id), js(b.block)]);
    }
    return out.sort((x, y) => (x[0] < y[0] ? -1 : x[0] > y[0] ? 1 : 0)).map(x => x[0] + ' ' + x[1]);
  }
  compare(id, method, arg, x, y, kind, caller) {
    if (!this.o.upgradeBoth && !this.own.has(id) && !this.b.canisters.has(id)) return;
    this.cnt('answers compared'); if (this.upgrades) this.cnt('answers compared after an upgrade'); this.cnt('compared ' + kind);
    const p = this.canon(this.a, id, method, x, arg), q = this.canon(this.b, id, method, y, arg);
    if (p !== q) {
      let args; try { args = js(decode(arg)).slice(0, 1500); } catch (e) { args = '0x' + arg.toString('hex').slice(0, 600); }
      this.differ(this.tag === 'X01' ? 'after an upgrade ' + method + ' answers differently than without it' : method + ' answers differently in the build with checks', { caller, args, upgraded: p.slice(0, 1500), other: q.slice(0, 1500), first: x.reject && x.reject[1].slice(0, 300), second: y.reject && y.reject[1].slice(0, 300), firstDifference: first(p, q), upgrades: this.upgrades, time: this.time.toString() });
    }
    this.o.distinct.add(this.tag + ' ' + method + ' ' + kind + ' ' + (x.reply === undefined ? 'rejected' : p.length > 60 ? 'long' : p.slice(0, 60)));
  }
  submit(id, method, arg, caller) { this.log.push(method); const h = this.a.submit(id, method, arg, caller), g = this.b.submit(id, method, arg, caller); this.pending.push({ h, g, id, method, arg, caller }); return h; }
  settle() {
    this.pending = this.pending.filter(p => {
      if (p.h.done !== p.g.done) this.differ('a call is answered by one of the twins only', { method: p.method });
      if (p.h.done) this.compare(p.id, p.method, p.arg, p.h.res, p.g.res, 'update', p.caller); return !p.h.done;
    });
  }
  update(id, method, arg, caller) { const h = this.submit(id, method, arg, caller); this.run(); if (!h.done) return { reject: [0, 'PENDING'], pending: h }; return h.res; }
  query(id, method, arg, caller) {
    const x = this.a.query(id, method, arg, caller);
    if (this.own.has(id) || this.b.canisters.has(id)) { const skip = !this.own.has(id) && !this.o.upgradeBoth && method !== 'http_request'; if (!skip) this.compare(id, method, arg, x, this.b.query(id, method, arg, caller), 'query', caller); }
    return x;
  }
  run() { const n = this.a.run(); this.b.run(); this.settle(); this.traps(); return n; }
  step() { const n = this.a.step(); this.b.step(); this.settle(); return n; }
  advance(d) { this.a.advance(d); this.b.advance(d); }
  elapse(d) { this.a.elapse(d); this.b.elapse(d); this.settle(); this.traps(); }
  fireTimers() { this.a.fireTimers(); return this.b.fireTimers(); }
  nextTimer() { return this.a.nextTimer(); }
  traps() {}
  set hold(f) { this.a.hold = this.b.hold = f; } get hold() { return this.a.hold; }
  set fault(f) { this.a.fault = this.b.fault = f; } set refuseCall(f) { this.a.refuseCall = this.b.refuseCall = f; } set onMsg(f) { this.a.onMsg = f; } set pick(f) { this.a.pick = this.b.pick = f; }
}
const sortDeep = v => (Array.isArray(v) ? v.map(sortDeep).sort((x, y) => (js(x) < js(y) ? -1 : 1)) : v && typeof v === 'object' && !Buffer.isBuffer(v) ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, sortDeep(x)])) : v);
const urlOf = arg => { try { return decode(arg)[0].url; } catch (e) { return ''; } };
const first = (p, q) => { let i = 0; while (i < p.length && p[i] === q[i]) i++; return [p.slice(Math.max(0, i - 60), i + 120), q.slice(Math.max(0, i - 60), i + 120)]; };

// ---- X01
function upgradeTwin(spec, env) {
  const w = new TwinWorld({ tag: 'X01', counters: env.counters, distinct: env.distinct, upgradeBoth: false });
  return drive(spec, env, w, w => { const c = env.counters; c['twin upgrades'] = (c['twin upgrades'] || 0) + w.upgrades; });
}
// ---- X03
function checkedTwin(spec, env) {
  const pairs = new Map(['core_nft', 'index_icrc7'].map(c => { try { return [env.wasm(c, 'prod'), env.wasm(c, 'checked')]; } catch (e) { if (c === 'index_icrc7' && !spec.withIndex) return [null, null]; throw e; } }));
  const w = new TwinWorld({ tag: 'X03', counters: env.counters, distinct: env.distinct, upgradeBoth: true, map: x => { if (!pairs.has(x)) throw new Error('twin: unknown module'); return pairs.get(x); } });
  w.traps = () => { if (w.a.stats.traps !== w.b.stats.traps) w.differ('a message traps in one build only', { prod: w.a.stats.traps, checked: w.b.stats.traps }); };
  return drive(spec, env, w, () => {});
}
function drive(spec, env, w, after) {
  const E = require('./engines').ENGINES; const inner = spec.inner || 'ledger';
  const r = E[inner]({ ...spec, engine: inner, world: w, tag: w.tag }, env);
  w.run(); after(w); return r;
}
module.exports = { TwinWorld, upgradeTwin, checkedTwin };
