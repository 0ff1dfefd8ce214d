'use strict';
// Builds the canisters of the working tree under test to wasm, cached by the content of the sources.
const fs = require('fs'), path = require('path'), crypto = require('crypto'), { spawnSync } = require('child_process');
const VERIF = path.resolve(__dirname, '..');
const REPO = process.env.VF_REPO || '/repo';
const CACHE = path.join(VERIF, '.cache');
function walk(d, out) { for (const e of fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) { if (e.name === 'target' || e.name === 'node_modules' || e.name === '.git') continue; const p = path.join(d, e.name); if (e.isDirectory()) walk(p, out); else if (e.isFile()) out.push(p); } return out; }
function sourceHash() {
  const h = crypto.createHash('sha256'); const files = [];
  for (const f of ['Cargo.toml', 'Cargo.lock', 'rust-toolchain.toml', 'rust-toolchain', '.cargo']) { const p = path.join(REPO, f); if (fs.existsSync(p)) { if (fs.statSync(p).isDirectory()) walk(p, files); else files.push(p); } }
  for (const d of ['src', 'wasm', 'cmdline']) { const p = path.join(REPO, d); if (fs.existsSync(p)) walk(p, files); }
  for (const f of files) { h.update(path.relative(REPO, f)); h.update('\0'); h.update(fs.readFileSync(f)); h.update('\0'); }
  return h.digest('hex').slice(0, 32);
}
const CRATES = { core_nft: 'core_nft', index_icrc7: 'index_icrc7', cmdline: 'origyn_icrc7_cmdlinetools' };
const log = s => process.stderr.write('[build] ' + s + '\n');
function seedTarget(tgt) {
  if (fs.existsSync(path.join(tgt, 'wasm32-unknown-unknown'))) return;
  fs.mkdirSync(tgt, { recursive: true });
  for (const d of ['wasm32-unknown-unknown', 'release']) { const s = path.join(REPO, 'target', d); if (fs.existsSync(s)) spawnSync('cp', ['-a', s, tgt + '/']); }
}
// variant: 'prod' (the release build) or 'checked' (the same with overflow and debug assertions)
function build(crate, variant) {
  if (variant === 'host') return buildHost(crate);
  const hash = sourceHash();
  const dir = path.join(CACHE, 'wasm', hash); const out = path.join(dir, crate + '-' + variant + '.wasm');
  if (fs.existsSync(out)) return out;
  const lock = path.join(CACHE, 'build.lock'); fs.mkdirSync(CACHE, { recursive: true });
  const tgt = path.join(CACHE, 'tgt');
  // one build at a time; flock is released by the kernel if the process dies
  const script = `
set -e
exec 9>"${lock}"; flock 9
[ -f "${out}" ] && exit 0
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1 || true
export CARGO_TARGET_DIR="${tgt}" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cd "${REPO}"
cargo rustc --crate-type=cdylib --target wasm32-unknown-unknown --release --locked --offline -p ${CRATES[crate]} ${variant === 'checked' ? '-- -C overflow-checks=on -C debug-assertions=on' : ''}
mkdir -p "${dir}"
cp "${tgt}/wasm32-unknown-unknown/release/${CRATES[crate]}.wasm" "${out}.tmp.$$"
mv "${out}.tmp.$$" "${out}"
`;
  seedTarget(tgt);
  const fp = path.join(tgt, 'wasm32-unknown-unknown', 'release', '.fingerprint');
  if (fs.existsSync(fp)) for (const n of fs.readdirSync(fp)) if (/^(core_nft|index_icrc7)-/.test(n)) fs.rmSync(path.join(fp, n), { recursive: true, force: true });
  const t0 = Date.now();
  const r = spawnSync('bash', ['-c', script], { encoding: 'utf8', maxBuffer: 1 << 28 });
  if (r.status !== 0 || !fs.existsSync(out)) { process.stderr.write((r.stdout || '') + (r.stderr || '')); const e = new Error('build of ' + crate + ' (' + variant + ') failed'); e.build = true; throw e; }
  log(crate + '-' + variant + ' built in ' + ((Date.now() - t0) / 1000).toFixed(1) + ' s');
  prune(hash);
  return out;
}
// the command-line tool, as a program of this machine
function buildHost(crate) {
  const hash = sourceHash(), dir = path.join(CACHE, 'wasm', hash), out = path.join(dir, crate + '-host'); if (fs.existsSync(out)) return out;
  const tgt = path.join(CACHE, 'tgt-host'), dbg = path.join(tgt, 'debug'); fs.mkdirSync(CACHE, { recursive: true });
  if (!fs.existsSync(dbg)) { fs.mkdirSync(dbg, { recursive: true }); for (const d of ['deps', 'build', '.fingerprint']) { const s = path.join(REPO, 'target', 'debug', d); if (fs.existsSync(s)) spawnSync('cp', ['-a', s, dbg + '/']); } }
  const own = /^(lib)?(core_nft|index_icrc7|integration_tests|origyn_icrc7_cmdlinetools)-/;
  for (const d of ['.fingerprint', 'deps', 'build']) { const p = path.join(dbg, d); if (fs.existsSync(p)) for (const n of fs.readdirSync(p)) if (own.test(n)) fs.rmSync(path.join(p, n), { recursive: true, force: true }); }
  const script = `
set -e
exec 9>"${path.join(CACHE, 'build.lock')}"; flock 9
[ -f "${out}" ] && exit 0
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1 || true
export CARGO_TARGET_DIR="${tgt}" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
cd "${REPO}"
cargo build --locked --offline -p ${CRATES[crate]} --bin ${CRATES[crate]}
mkdir -p "${dir}"
cp "${dbg}/${CRATES[crate]}" "${out}.tmp.$$"
mv "${out}.tmp.$$" "${out}"
`;
  const t0 = Date.now(), r = spawnSync('bash', ['-c', script], { encoding: 'utf8', maxBuffer: 1 << 28 });
  if (r.status !== 0 || !fs.existsSync(out)) { process.stderr.write((r.stdout || '') + (r.stderr || '')); const e = new Error('build of ' + crate + ' (host) failed'); e.build = true; throw e; }
  log(crate + '-host built in ' + ((Date.now() - t0) / 1000).toFixed(1) + ' s'); prune(hash);
  return out;
}
// keep the cache small: the newest few source states only
function prune(keep) {
  const d = path.join(CACHE, 'wasm'); try { const all = fs.readdirSync(d).map(n => ({ n, t: fs.statSync(path.join(d, n)).mtimeMs })).sort((a, b) => b.t - a.t);
  for (const { n } of all.slice(8)) if (n !== keep) fs.rmSync(path.join(d, n), { recursive: true, force: true }); } catch (e) { if (e.code !== 'ENOENT') throw e; } // another check may prune at the same time
}
module.exports = { build, sourceHash, REPO, VERIF, CACHE };
if (require.main === module) { for (const [c, v] of [['core_nft', 'prod'], ['core_nft', 'checked'], ['index_icrc7', 'prod'], ['index_icrc7', 'checked'], ['cmdline', 'host']]) console.log(build(c, v)); }
