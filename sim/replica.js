'use strict';
// A single-process model of an Internet Computer subnet that runs the real canister wasm.
// Message-level atomicity (commit on success, roll back on trap), call contexts, callbacks and
// cleanup callbacks, global timers, upgrades through stable memory, certified data and a small
// management canister.  The order in which queued messages run, the time between them and the
// failure of any inter-canister call are under the control of the test.
const crypto = require('crypto');
const P = require('./principal');
const { T, encode, decode } = require('./candid');
const { fix } = require('./wasmfix');

class Trap extends Error {}
const PAGE = 65536;
const modules = new Map(), seenBytes = new WeakMap();
function loadModule(bytes) {
  if (seenBytes.has(bytes)) return seenBytes.get(bytes);
  const m = loadModule0(bytes); seenBytes.set(bytes, m); return m;
}
function loadModule0(bytes) {
  const h = crypto.createHash('sha256').update(bytes).digest('hex');
  let m = modules.get(h);
  if (!m) { const f = fix(bytes); m = { hash: h, module: new WebAssembly.Module(f.bytes), globals: f.globals, metadata: f.metadata, ro: f.ro, exports: null }; m.exports = new Set(WebAssembly.Module.exports(m.module).map(e => e.name)); modules.set(h, m); }
  return m;
}

class Stable {
  constructor() { this.pages = new Map(); this.n = 0; this.undo = null; this.n0 = 0; }
  begin() { this.undo = new Map(); this.n0 = this.n; }
  rollback() { for (const [i, pg] of this.undo) { if (pg) this.pages.set(i, pg); else this.pages.delete(i); } this.n = this.n0; this.undo = null; }
  commit() { this.undo = null; }
  grow(k) { const o = this.n; if (o + k > 131072) return -1; this.n += k; return o; }
  write(off, src) {
    if (off + src.length > this.n * PAGE) throw new Trap('stable memory out of bounds');
    let i = 0;
    while (i < src.length) {
      const pi = Math.floor((off + i) / PAGE), po = (off + i) % PAGE, k = Math.min(PAGE - po, src.length - i);
      let pg = this.pages.get(pi);
      if (this.undo && !this.undo.has(pi)) { this.undo.set(pi, pg || null); pg = pg ? pg.slice() : new Uint8Array(PAGE); this.pages.set(pi, pg); }
      else if (!pg) { pg = new Uint8Array(PAGE); this.pages.set(pi, pg); }
      pg.set(src.subarray(i, i + k), po); i += k;
    }
  }
  read(off, dst) {
    if (off + dst.length > this.n * PAGE) throw new Trap('stable memory out of bounds');
    let i = 0;
    while (i < dst.length) {
      const pi = Math.floor((off + i) / PAGE), po = (off + i) % PAGE, k = Math.min(PAGE - po, dst.length - i);
      const pg = this.pages.get(pi);
      if (pg) dst.set(pg.subarray(po, po + k), i); else dst.fill(0, i, i + k);
      i += k;
    }
  }
}

class Canister {
  constructor(world, id, controllers) {
    this.world = world; this.id = id; this.controllers = controllers; this.status = 'running';
    this.stable = new Stable(); this.timer = 0n; this.certified = Buffer.alloc(0); this.version = 0n;
    this.cycles = 10n ** 16n; this.ctxs = new Map(); this.mod = null; this.inst = null; this.mirror = null; this.prints = [];
  }
  instantiate() {
    this.inst = new WebAssembly.Instance(this.mod.module, { ic0: this.imports() });
    this.x = this.inst.exports; this.table = this.x.__vf_table;
  }
  mem() { return new Uint8Array(this.x.memory.buffer); }
  save() {
    const m = this.mem(), ro = this.mod.ro; // the stack and the read-only data need no copy
    if (!this.mirror || this.mirror.length !== m.length - ro) this.mirror = new Uint8Array(m.length - ro);
    this.mirror.set(m.subarray(ro)); this.gl = this.mod.globals.map(g => this.x[g].value);
  }
  restore() {
    if (!this.mirror) return;
    const ro = this.mod.ro, len = this.mirror.length + ro;
    if (this.x.memory.buffer.byteLength !== len) {
      this.instantiate();
      const need = (len - this.x.memory.buffer.byteLength) / PAGE; if (need > 0) this.x.memory.grow(need);
    }
    this.mem().set(this.mirror, ro); this.mod.globals.forEach((g, i) => { this.x[g].value = this.gl[i]; });
  }
  // Runs one message. Returns {ok, trap?, reply?/reject?}; commits or rolls back.
  exec(kind, fn, o) {
    const w = this.world;
    const cur = { kind, arg: o.arg || Buffer.alloc(0), caller: o.caller, ctx: o.ctx || null, out: [], replied: false, reply: null, reject: null, calls: [], pend: null, rejectCode: o.rejectCode || 0, rejectMsg: Buffer.from(o.rejectMsg || ''), timer: null, cert: null };
    this.cur = cur; this.stable.begin(); w.stats.messages++; if (World.beat) World.beat();
    w.stats.kinds[kind] = (w.stats.kinds[kind] || 0) + 1;
    if (w.onExec) w.onExec(this, kind, o);
    let trap = null;
    try { fn(this.x); } catch (e) {
      if (!(e instanceof Trap || e instanceof WebAssembly.RuntimeError || e instanceof RangeError)) { this.cur = null; throw e; }
      trap = e instanceof Trap ? e.message : 'wasm: ' + e.message;
    }
    this.cur = null;
    if (trap !== null) { this.stable.rollback(); this.restore(); w.stats.traps++; return { ok: false, trap, cur }; }
    if (kind === 'query') { this.stable.rollback(); this.restore(); return { ok: true, cur }; }
    this.stable.commit(); this.save(); this.version++;
    if (cur.timer !== null) this.timer = cur.timer;
    if (cur.cert !== null) this.certified = cur.cert;
    return { ok: true, cur };
  }
  imports() {
    const self = this, w = this.world;
    const buf = (p, n) => Buffer.from(Buffer.from(self.x.memory.buffer, p >>> 0, n >>> 0));
    const put = (dst, off, n, src) => { off >>>= 0; n >>>= 0; if (off + n > src.length) throw new Trap('system api: out of range copy'); self.mem().set(src.subarray(off, off + n), dst >>> 0); };
    const put128 = (dst, v) => { const b = Buffer.alloc(16); b.writeBigUInt64LE(v & 0xffffffffffffffffn, 0); b.writeBigUInt64LE(v >> 64n, 8); self.mem().set(b, dst >>> 0); };
    const C = () => self.cur;
    const cert = () => Buffer.concat([Buffer.from('SIMCERT:' + self.id + ':'), self.certified]);
    const api = {
      time: () => BigInt.asIntN(64, w.time),
      global_timer_set: t => { const c = C(); const old = c.timer !== null ? c.timer : self.timer; c.timer = BigInt.asUintN(64, t); return BigInt.asIntN(64, old); },
      data_certificate_present: () => (C().kind === 'query' ? 1 : 0),
      data_certificate_size: () => cert().length,
      data_certificate_copy: (d, o, n) => put(d, o, n, cert()),
      certified_data_set: (p, n) => { if (n > 32) throw new Trap('certified data too long'); C().cert = buf(p, n); },
      stable64_size: () => BigInt(self.stable.n),
      stable64_grow: k => BigInt(self.stable.grow(Number(k))),
      stable64_read: (d, o, n) => self.stable.read(Number(o), self.mem().subarray(Number(d), Number(d) + Number(n))),
      stable64_write: (o, s, n) => self.stable.write(Number(o), self.mem().subarray(Number(s), Number(s) + Number(n))),
      canister_cycle_balance128: d => put128(d, self.cycles),
      canister_liquid_cycle_balance128: d => put128(d, self.cycles),
      canister_version: () => self.version,
      canister_self_size: () => P.toBytes(self.id).length,
      canister_self_copy: (d, o, n) => put(d, o, n, P.toBytes(self.id)),
      canister_status: () => (self.status === 'running' ? 1 : 2),
      cost_call: (a, b, d) => put128(d, 0n),
      cost_create_canister: (r, d) => { put128(d, 1000n); return 0; },
      debug_print: (p, n) => { const s = buf(p, n).toString(); if (w.verbose) console.error('[' + self.id.slice(0, 5) + '] ' + s); },
      trap: (p, n) => { throw new Trap(buf(p, n).toString()); },
      performance_counter: () => 0n,
      instruction_counter: () => 0n,
      is_controller: (p, n) => (self.controllers.includes(P.fromBytes(buf(p, n))) ? 1 : 0),
      in_replicated_execution: () => (C().kind === 'query' ? 0 : 1),
      msg_arg_data_size: () => C().arg.length,
      msg_arg_data_copy: (d, o, n) => put(d, o, n, C().arg),
      msg_caller_size: () => P.toBytes(C().caller).length,
      msg_caller_copy: (d, o, n) => put(d, o, n, P.toBytes(C().caller)),
      msg_reply_data_append: (p, n) => { C().out.push(buf(p, n)); },
      msg_reply: () => { const c = C(); if (c.replied || (c.ctx && c.ctx.responded)) throw new Trap('already replied'); c.replied = true; c.reply = Buffer.concat(c.out); },
      msg_reject: (p, n) => { const c = C(); if (c.replied || (c.ctx && c.ctx.responded)) throw new Trap('already replied'); c.replied = true; c.reject = [4, buf(p, n).toString()]; },
      msg_reject_code: () => C().rejectCode,
      msg_reject_msg_size: () => C().rejectMsg.length,
      msg_reject_msg_copy: (d, o, n) => put(d, o, n, C().rejectMsg),
      msg_cycles_available128: d => put128(d, 0n), msg_cycles_refunded128: d => put128(d, 0n), msg_cycles_accept128: (a, b, d) => put128(d, 0n),
      msg_deadline: () => 0n,
      call_new: (cs, cn, ns, nn, rf, re, jf, je) => { C().pend = { callee: P.fromBytes(buf(cs, cn)), method: buf(ns, nn).toString(), rf, re, jf, je, data: [], cycles: 0n, cf: null, ce: null, be: false }; },
      call_data_append: (p, n) => { C().pend.data.push(buf(p, n)); },
      call_cycles_add128: (h, l) => { C().pend.cycles += (BigInt.asUintN(64, h) << 64n) + BigInt.asUintN(64, l); },
      call_on_cleanup: (f, e) => { C().pend.cf = f; C().pend.ce = e; },
      call_with_best_effort_response: () => { C().pend.be = true; },
      call_perform: () => { const c = C(); const pnd = c.pend; c.pend = null; if (w.refuseCall && w.refuseCall(self, pnd)) return 2; pnd.data = Buffer.concat(pnd.data); c.calls.push(pnd); return 0; },
    };
    return new Proxy(api, { get: (t, k) => { if (!(k in t)) throw new Error('ic0.' + String(k) + ' not implemented'); return t[k]; } });
  }
}

class World {
  constructor(o = {}) {
    this.time = o.time || 1_750_000_000_000_000_000n; // ns
    this.canisters = new Map(); this.queue = []; this.nextId = 1; this.nextCtx = 1; this.seq = 0;
    this.stats = { messages: 0, traps: 0, kinds: {}, reordered: 0, faults: 0, maxQueue: 0, queueStates: new Set() };
    this.pick = o.pick || null; this.hold = null; this.fault = o.fault || null; this.refuseCall = null; this.onMsg = null; this.onExec = null; this.verbose = !!o.verbose; this.msgStep = o.msgStep || 0n;
    this.maxSteps = o.maxSteps || 20000;
    this.mgmtLog = [];
  }
  advance(ns) { this.time += BigInt(ns); }
  fireTimers() { let n = 0; for (const c of this.canisters.values()) if (c.mod && c.status === 'running' && c.timer !== 0n && c.timer <= this.time) { c.timer = 0n; this.queue.push({ type: 'timer', from: '', to: c.id, seq: this.seq++ }); n++; } return n; }
  nextTimer() { let t = 0n; for (const c of this.canisters.values()) if (c.mod && c.status === 'running' && c.timer !== 0n && (t === 0n || c.timer < t)) t = c.timer; return t; }
  // Moves time forward by ns, running every timer that falls due on the way.
  elapse(ns) {
    const end = this.time + BigInt(ns); let guard = 0;
    for (;;) {
      const t = this.nextTimer();
      if (t === 0n || t > end || ++guard > 5000) break;
      if (t > this.time) this.time = t;
      this.fireTimers(); this.run();
    }
    this.time = end; this.run();
  }
  createCanister(controllers) { const id = P.canister(this.nextId++); this.canisters.set(id, new Canister(this, id, controllers)); return id; }
  install(id, wasm, arg, caller) {
    const c = this.canisters.get(id);
    c.mod = loadModule(wasm); c.stable = new Stable(); c.timer = 0n; c.certified = Buffer.alloc(0); c.mirror = null; c.ctxs = new Map(); c.instantiate();
    c.save();
    const r = c.exec('init', x => { if (x.canister_init) x.canister_init(); }, { arg, caller });
    if (!r.ok) { c.mod = null; return r; }
    this.finish(c, r, null); return r;
  }
  upgrade(id, wasm, arg, caller) {
    const c = this.canisters.get(id);
    const keep = { mod: c.mod, stable: c.stable, timer: c.timer, certified: c.certified, mirror: c.mirror, inst: c.inst, x: c.x, table: c.table, gl: c.gl };
    const snapPages = new Map(c.stable.pages); const snapN = c.stable.n;
    let r = c.exec('pre_upgrade', x => { if (x.canister_pre_upgrade) x.canister_pre_upgrade(); }, { arg: Buffer.alloc(0), caller });
    const undo = why => { c.stable = keep.stable; c.stable.pages = snapPages; c.stable.n = snapN; Object.assign(c, { mod: keep.mod, timer: keep.timer, certified: keep.certified, mirror: keep.mirror, inst: keep.inst, x: keep.x, table: keep.table, gl: keep.gl }); return { ok: false, trap: why }; };
    if (!r.ok) return r;
    // writes of later messages must not reach the pages kept for a rollback
    c.stable.pages = new Map([...c.stable.pages].map(([k, v]) => [k, v.slice()]));
    c.mod = wasm ? loadModule(wasm) : c.mod; c.timer = 0n; c.mirror = null; c.instantiate(); c.save();
    r = c.exec('post_upgrade', x => { if (x.canister_post_upgrade) x.canister_post_upgrade(); }, { arg, caller });
    if (!r.ok) { c.instantiate(); const t = r.trap; undo(); c.restore(); return { ok: false, trap: t }; }
    this.finish(c, r, null); return r;
  }
  // queue the effects of a successful message
  finish(c, r, ctx) {
    const cur = r.cur;
    if (ctx === null && cur.calls.length) ctx = this.newCtx(c, () => {}, cur.caller || P.MGMT);
    for (const call of cur.calls) { ctx.outstanding++; c.cycles -= call.cycles; this.queue.push({ type: 'req', from: c.id, to: call.callee, method: call.method, arg: call.data, call, ctx, seq: this.seq++, cycles: call.cycles }); }
    if (ctx && cur.replied && !ctx.responded) { ctx.responded = true; ctx.done(cur.reply !== null ? { reply: cur.reply } : { reject: cur.reject }); }
  }
  newCtx(c, done, caller) { const ctx = { id: this.nextCtx++, c, done, responded: false, outstanding: 0, caller }; c.ctxs.set(ctx.id, ctx); return ctx; }
  settle(ctx, why) {
    if (ctx.outstanding === 0) { ctx.c.ctxs.delete(ctx.id); if (!ctx.responded) { ctx.responded = true; ctx.done({ reject: [5, why || 'canister did not reply'] }); } }
  }
  // ---- ingress
  submit(id, method, arg, caller) {
    const h = { done: false, res: null };
    this.queue.push({ type: 'ingress', from: 'user:' + caller + ':' + this.seq, to: id, method, arg, caller, done: res => { h.done = true; h.res = res; h.at = this.time; }, seq: this.seq++ });
    return h;
  }
  update(id, method, arg, caller) { const h = this.submit(id, method, arg, caller); this.run(); if (!h.done) return { reject: [0, 'PENDING'], pending: h }; return h.res; }
  query(id, method, arg, caller) {
    const c = this.canisters.get(id);
    const name = 'canister_query ' + method;
    if (!c || !c.mod || !c.mod.exports.has(name)) return { reject: [3, 'no query method ' + method] };
    const r = c.exec('query', x => x[name](), { arg, caller });
    if (!r.ok) return { reject: [5, r.trap], trap: true };
    if (!r.cur.replied) return { reject: [5, 'no reply'] };
    return r.cur.reply !== null ? { reply: r.cur.reply } : { reject: r.cur.reject };
  }
  // ---- scheduler
  candidates() {
    const seen = new Set(), out = [];
    for (let i = 0; i < this.queue.length; i++) {
      const m = this.queue[i];
      if (this.hold && this.hold(m)) { if (m.type === 'req') seen.add(m.from + '>' + m.to); continue; }
      if (m.type === 'req') { const k = m.from + '>' + m.to; if (seen.has(k)) continue; seen.add(k); }
      out.push(i);
    }
    return out;
  }
  step() {
    const cand = this.candidates(); if (!cand.length) return false;
    let i = 0;
    if (this.pick && cand.length > 1) { i = this.pick(cand.map(k => this.queue[k]), this); if (i !== 0) this.stats.reordered++; }
    if (this.queue.length > this.stats.maxQueue) this.stats.maxQueue = this.queue.length;
    const m = this.queue[cand[i]]; this.queue.splice(cand[i], 1);
    this.time += this.msgStep;
    if (this.onMsg) this.onMsg(m);
    this.deliver(m); return true;
  }
  run(max) { let n = 0; max = max || this.maxSteps; while (n < max && this.step()) n++; if (n >= max) throw new Error('simulator: message storm (' + n + ' steps)'); return n; }
  respond(m, res) { // response to an inter-canister request
    if (m.type === 'ingress') return m.done(res);
    this.queue.push({ type: 'resp', from: m.to, to: m.from, req: m, res, seq: this.seq++ });
  }
  deliver(m) {
    if (m.type === 'resp') return this.deliverResponse(m);
    if (m.type === 'timer') {
      const c = this.canisters.get(m.to); const ctx = this.newCtx(c, () => {}, c.id);
      const r = c.exec('timer', x => { if (x.canister_global_timer) x.canister_global_timer(); }, { caller: P.MGMT, ctx });
      if (r.ok) this.finish(c, r, ctx); this.settle(ctx); return;
    }
    let lose = null;
    if (m.type === 'req' && this.fault && m.from !== m.to) {
      const f = this.fault(m);
      if (f) { this.stats.faults++; if (f.answer) return this.respond(m, { reply: f.answer }); if (f.lose) lose = f.lose; else if (f.garble) { lose = { garble: true }; } else return this.respond(m, { reject: f.reject }); }
    }
    const answer = res => this.respond(m, lose ? (lose.garble ? { reply: Buffer.from('not candid') } : { reject: lose }) : res);
    if (m.to === P.MGMT) return answer(this.management(m));
    const c = this.canisters.get(m.to);
    if (!c || !c.mod || c.status !== 'running') return answer({ reject: [3, 'canister ' + m.to + ' not available'] });
    let name = 'canister_update ' + m.method;
    if (!c.mod.exports.has(name)) name = 'canister_query ' + m.method;
    if (!c.mod.exports.has(name)) return answer({ reject: [3, 'no method ' + m.method] });
    const caller = m.type === 'ingress' ? m.caller : m.from;
    const ctx = this.newCtx(c, answer, caller);
    const isq = name.startsWith('canister_query');
    const r = c.exec(isq ? 'query' : 'update', x => x[name](), { arg: m.arg, caller, ctx, method: m.method });
    if (r.ok) { this.finish(c, r, ctx); this.settle(ctx); } else this.settle(ctx, r.trap);
  }
  deliverResponse(m) {
    const call = m.req.call, ctx = m.req.ctx, c = ctx.c;
    ctx.outstanding--;
    const ok = m.res.reply !== undefined;
    const o = { ctx, caller: ctx.caller, arg: ok ? m.res.reply : Buffer.alloc(0), rejectCode: ok ? 0 : m.res.reject[0], rejectMsg: ok ? '' : m.res.reject[1] };
    const r = c.exec(ok ? 'reply_cb' : 'reject_cb', () => c.table.get(ok ? call.rf : call.jf)(ok ? call.re : call.je), o);
    if (r.ok) { this.finish(c, r, ctx); this.settle(ctx); return; }
    if (call.cf !== null) { const k = c.exec('cleanup', () => c.table.get(call.cf)(call.ce), { ctx, caller: ctx.caller }); if (k.ok) { /* cleanup may not call or reply */ } }
    this.settle(ctx, r.trap);
  }
  // ---- management canister
  management(m) {
    let a; try { a = decode(m.arg)[0]; } catch (e) { return { reject: [4, 'bad argument'] }; }
    const caller = m.from; this.mgmtLog.push({ t: this.time, method: m.method, caller, id: a && a.canister_id });
    const reply = (t, v) => ({ reply: encode(t, v) });
    const target = () => { const c = this.canisters.get(a.canister_id); if (!c) return { err: { reject: [3, 'canister not found'] } }; if (!c.controllers.includes(caller) && m.method !== 'deposit_cycles') return { err: { reject: [5, 'caller is not a controller'] } }; return { c }; };
    switch (m.method) {
      case 'create_canister': { const ctl = a.settings && a.settings.controllers ? a.settings.controllers : [caller]; const id = this.createCanister(ctl); const c = this.canisters.get(id); c.cycles = m.cycles; c.settings = a.settings; return reply([T.record({ canister_id: T.principal })], [{ canister_id: id }]); }
      case 'install_code': {
        const t = target(); if (t.err) return t.err;
        const mode = Object.keys(a.mode)[0];
        const r = mode === 'upgrade' ? this.upgrade(a.canister_id, a.wasm_module, a.arg, caller) : this.install(a.canister_id, a.wasm_module, a.arg, caller);
        return r.ok ? reply([], []) : { reject: [5, r.trap] };
      }
      case 'canister_status': {
        const t = target(); if (t.err) return t.err; const c = t.c;
        const mem = BigInt((c.x ? c.x.memory.buffer.byteLength : 0) + c.stable.n * PAGE);
        const S = T.record({ status: T.variant({ running: T.null, stopping: T.null, stopped: T.null }), settings: T.record({ controllers: T.vec(T.principal), compute_allocation: T.nat, memory_allocation: T.nat, freezing_threshold: T.nat, reserved_cycles_limit: T.nat, log_visibility: T.variant({ controllers: T.null, public: T.null }), wasm_memory_limit: T.nat, wasm_memory_threshold: T.nat, environment_variables: T.vec(T.record({ name: T.text, value: T.text })) }), module_hash: T.opt(T.blob), memory_size: T.nat, cycles: T.nat, reserved_cycles: T.nat, idle_cycles_burned_per_day: T.nat, version: T.nat64, ready_for_migration: T.bool,
          query_stats: T.record({ num_calls_total: T.nat, num_instructions_total: T.nat, request_payload_bytes_total: T.nat, response_payload_bytes_total: T.nat }),
          memory_metrics: T.record({ wasm_memory_size: T.nat, stable_memory_size: T.nat, global_memory_size: T.nat, wasm_binary_size: T.nat, custom_sections_size: T.nat, canister_history_size: T.nat, wasm_chunk_store_size: T.nat, snapshots_size: T.nat }) });
        return reply([S], [{ status: { [c.status]: null }, settings: { controllers: c.controllers, compute_allocation: 0, memory_allocation: 0, freezing_threshold: 2592000, reserved_cycles_limit: 5000000000000, log_visibility: 'controllers', wasm_memory_limit: 3221225472, wasm_memory_threshold: 0, environment_variables: [] }, module_hash: c.mod ? Buffer.from(c.mod.hash, 'hex') : null, memory_size: mem, cycles: c.cycles > 0n ? c.cycles : 0n, reserved_cycles: 0, idle_cycles_burned_per_day: 0, version: c.version, ready_for_migration: false,
          query_stats: { num_calls_total: 0, num_instructions_total: 0, request_payload_bytes_total: 0, response_payload_bytes_total: 0 },
          memory_metrics: { wasm_memory_size: BigInt(c.x ? c.x.memory.buffer.byteLength : 0), stable_memory_size: BigInt(c.stable.n * PAGE), global_memory_size: 0, wasm_binary_size: 0, custom_sections_size: 0, canister_history_size: 0, wasm_chunk_store_size: 0, snapshots_size: 0 } }]);
      }
      case 'deposit_cycles': { const t = target(); if (t.err) return t.err; t.c.cycles += m.cycles; return reply([], []); }
      case 'update_settings': { const t = target(); if (t.err) return t.err; if (a.settings.controllers) t.c.controllers = a.settings.controllers; return reply([], []); }
      case 'start_canister': { const t = target(); if (t.err) return t.err; t.c.status = 'running'; return reply([], []); }
      case 'stop_canister': { const t = target(); if (t.err) return t.err; t.c.status = 'stopped'; return reply([], []); }
      case 'raw_rand': return reply([T.blob], [crypto.createHash('sha256').update('rand' + this.seq).digest()]);
      default: return { reject: [3, 'management canister: no method ' + m.method] };
    }
  }
}
module.exports = { World, loadModule, Trap, PAGE };
