'use strict';
// Writes MANIFEST.json from the registered checks.
const fs = require('fs'), path = require('path');
const { CHECKS } = require('../lib/checks');
const props = fs.readFileSync(path.join(__dirname, '..', 'properties.jsonl'), 'utf8').trim().split('\n').map(JSON.parse);
const checks = [], na = [];
for (const p of props) {
  const c = CHECKS[p.id];
  if (!c) { na.push({ property: p.id, reason: 'the check is not finished yet' }); continue; }
  checks.push({ property: p.id, quick_cmd: 'node run.js check ' + p.id + ' quick', thorough_cmd: 'node run.js check ' + p.id + ' thorough', evidence_file: 'evidence/' + p.id + '.json', technique: c.technique, level: c.level || 'exploration',
    level_note: c.note || 'Every monitored execution of the real canister code is judged completely; executions not generated are not covered. Trusts the replica model in sim/ (message atomicity, rollback on trap, timers, upgrades, stable memory), the reference model and the Candid decoding.' });
}
const m = { version: 1, setup_cmd: 'node lib/build.js', checks, not_applicable: na,
  notes: 'No hooks are needed: the monitors observe the public interface of the production wasm, which is rebuilt from /repo on every change of its sources. VF_STRICT=1 makes a check fail when its workload never produced what it claims to judge. node run.js replay <file> reruns a recorded violation.' };
fs.writeFileSync(path.join(__dirname, '..', 'MANIFEST.json'), JSON.stringify(m, null, 1) + '\n');
console.log(checks.length + ' checks, ' + na.length + ' without');
