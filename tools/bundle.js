'use strict';
// Bundles the simulator into one file, for the self-contained demonstrations of planted bugs.
const fs = require('fs'), path = require('path'); const D = path.join(__dirname, '..', 'sim');
let o = "'use strict';\n// Generated by tools/bundle.js: the replica simulator in one file.\nconst __m = {}, __c = {};\nconst __r = n => { if (__m[n]) { if (!__c[n]) { const m = { exports: {} }; __c[n] = m.exports; __m[n](m, __r); __c[n] = m.exports; } return __c[n]; } return require(n); };\n";
for (const n of ['principal', 'candid', 'wasmfix', 'replica', 'core']) o += '__m["./' + n + '"] = (module, require) => {\n' + fs.readFileSync(path.join(D, n + '.js'), 'utf8').replace("'use strict';\n", '') + '\n};\n';
const tool = process.argv.includes('--tool'); // with the model of the HTTPS interface, for the command-line tool
if (tool) for (const [n, f] of [['../lib/util', '../lib/util'], ['./cbor', 'cbor'], ['./gateway', 'gateway']]) o += '__m["' + n + '"] = (module, require) => {\n' + fs.readFileSync(path.join(D, f + '.js'), 'utf8').replace("'use strict';\n", '') + '\n};\n';
o += `
const fs = require('fs');
const { World } = __r('./replica'), C = __r('./core'), P = __r('./principal');
const load = (f, n) => { const p = 'target/wasm32-unknown-unknown/release/' + n + '.wasm'; return fs.readFileSync(p); };
const wasm = load(0, 'core_nft'); const indexWasm = () => load(0, 'index_icrc7');
const ctl = P.user('ctl'), u = n => P.user(n), acc = (n, s) => ({ owner: P.user(n), subaccount: s === undefined ? null : Buffer.alloc(32, s) });
const deploy = (o = {}) => { const w = new World({}); const c = C.Core.deploy(w, wasm, ctl, o); if (c.trap) throw new Error(c.trap); return [w, c]; };
const mint = (c, to, meta = [], memo = null) => c.u(ctl, 'mint', { mint_requests: [].concat(to).map(a => ({ token_owner: a, metadata: meta, memo })) });
const now = w => w.time;
const info = (c, sp, o = {}) => Object.assign({ spender: sp, from_subaccount: null, expires_at: null, memo: null, created_at_time: c.w.time }, o);
const approve = (c, by, id, sp, o) => c.u(by, 'icrc37_approve_tokens', [{ token_id: id, approval_info: info(c, sp, o) }]);
const approveColl = (c, by, sp, o) => c.u(by, 'icrc37_approve_collection', [{ approval_info: info(c, sp, o) }]);
const transfer = (c, by, id, to, o = {}) => c.u(by, 'icrc7_transfer', [{ to, token_id: id, memo: null, from_subaccount: null, created_at_time: null, ...o }]);
const transferFrom = (c, by, id, from, to, o = {}) => c.u(by, 'icrc37_transfer_from', [{ spender_subaccount: null, from, to, token_id: id, memo: null, created_at_time: null, ...o }]);
const blocks = (c, start = 0n, length = 100n) => c.q(ctl, 'icrc3_get_blocks', [{ start, length }]).ok;
const S = 1000000000n;
const check = (what, cond, ...x) => { if (!cond) { console.log('FAIL: ' + what, ...x.map(C.plain)); process.exit(1); } console.log('ok: ' + what); };
const eq = (what, a, b) => check(what, C.plain(a) === C.plain(b), a, b);
module.exports = { World, ...C, P, wasm, indexWasm, ctl, u, acc, deploy, mint, now, info, approve, approveColl, transfer, transferFrom, blocks, S, check, eq };
`;
if (tool) o += `
// Builds the tool and returns a function that runs it: (args, {input, plan, files}) -> {code, out, err}
async function startTool(w, c) {
  const os = require('os'), path = require('path'), cp = require('child_process'); const G = __r('./gateway');
  const b = cp.spawnSync('bash', ['-c', '[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1; cargo build --locked --offline -p origyn_icrc7_cmdlinetools 2>&1 && cargo metadata --no-deps --format-version 1 --offline > /dev/null'], { encoding: 'utf8', maxBuffer: 1 << 28 }); const bin = path.resolve((process.env.CARGO_TARGET_DIR || 'target') + '/debug/origyn_icrc7_cmdlinetools');
  if (!fs.existsSync(bin)) { console.log('the tool was not built', b.stdout.slice(-2000)); process.exit(2); }
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'demo-tool-')), me = G.identity('me'); fs.writeFileSync(path.join(dir, 'id.pem'), me.pem); const g = new G.Gateway(w); await g.listen();
  process.on('exit', () => fs.rmSync(dir, { recursive: true, force: true }));
  const run = (args, o = {}) => new Promise(res => { let n = 0; g.plan = o.plan ? rec => o.plan(rec, n++) : null; const p = cp.spawn(bin, ['-i', 'id.pem', '-c', c.id, ...args], { cwd: dir, env: { PATH: '/usr/bin:/bin', HOME: dir, http_proxy: 'http://127.0.0.1:' + g.port, no_proxy: '' } }); let out = '', err = ''; p.stdout.on('data', d => out += d); p.stderr.on('data', d => err += d); p.stdin.on('error', () => {}); p.stdin.end(o.input || ''); p.on('close', code => res({ code, out, err })); });
  return { run, dir, me: me.principal, close: () => g.close(), file: (n, b) => fs.writeFileSync(path.join(dir, n), b), read: n => fs.readFileSync(path.join(dir, n), 'utf8') };
}
module.exports.startTool = startTool;
`;
if (process.argv[2]) fs.writeFileSync(process.argv[2], o);
