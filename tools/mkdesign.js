'use strict';
// Rewrites the table of planted bugs in DESIGN.md.
const fs = require('fs'), path = require('path'); const R = path.join(__dirname, '..'), S = path.join(R, 'seeded');
const rows = fs.readdirSync(S).sort().map(d => { const m = JSON.parse(fs.readFileSync(path.join(S, d, 'meta.json'))); return '| ' + [d, m.needs, m.what_it_breaks, m.caught_by || m.property].join(' | ') + ' |'; });
const t = ['<!-- seeds -->', '| planted bug | needs | breaks | caught by |', '|---|---|---|---|', ...rows, '<!-- /seeds -->'].join('\n');
const f = path.join(R, 'DESIGN.md'); let s = fs.readFileSync(f, 'utf8'); s = /<!-- seeds -->/.test(s) ? s.replace(/<!-- seeds -->[^]*<!-- \/seeds -->/, () => t) : s.replace('SEEDTABLE', () => t); fs.writeFileSync(f, s); console.log(rows.length);
