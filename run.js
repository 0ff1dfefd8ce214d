#!/usr/bin/env node
'use strict';
const { check, replay, CHECKS } = require('./lib/run');
const [cmd, a, b] = process.argv.slice(2);
(async () => {
  if (cmd === 'check') process.exit(await check(a, b || process.env.VERIF_TIER || 'quick'));
  if (cmd === 'replay') process.exit(await replay(a));
  if (cmd === 'list') { for (const k of Object.keys(CHECKS)) console.log(k + '  ' + CHECKS[k].technique); process.exit(0); }
  console.error('usage: run.js check <property> [quick|thorough] | replay <file> | list'); process.exit(2);
})().catch(e => { console.error(e.stack || e); process.exit(2); });
