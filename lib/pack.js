'use strict';
// JSON with naturals and byte strings, for replay files.
const pack = v => v === null || v === undefined ? null : typeof v === 'bigint' ? { $n: v.toString() } : Buffer.isBuffer(v) || v instanceof Uint8Array ? { $b: Buffer.from(v).toString('hex') } : Array.isArray(v) ? v.map(pack) : typeof v === 'object' ? Object.fromEntries(Object.entries(v).filter(x => x[1] !== undefined).map(([k, x]) => [k, pack(x)])) : v;
const unpack = v => v === null || typeof v !== 'object' ? v : Array.isArray(v) ? v.map(unpack) : '$n' in v ? BigInt(v.$n) : '$b' in v ? Buffer.from(v.$b, 'hex') : Object.fromEntries(Object.entries(v).map(([k, x]) => [k, unpack(x)]));
module.exports = { pack, unpack };
