// Writes the table of seeded bugs into DESIGN.md (between its heading and "Misses while").
import fs from 'node:fs';const R=new URL('..',import.meta.url).pathname;
let d=fs.readFileSync(R+'DESIGN.md','utf8');
const rows=fs.readdirSync(R+'seeded').sort().map(i=>{const m=JSON.parse(fs.readFileSync(`${R}seeded/${i}/meta.json`,'utf8'));return`| ${i} | ${m.property} | ${m.needs} |`;});
const t='| bug | property, caught by its check | needs |\n|---|---|---|\n'+rows.join('\n')+'\n';
d=d.replace(/SEEDTABLE\n|\| bug \|[\s\S]*?\n(?=\nMisses)/,t);fs.writeFileSync(R+'DESIGN.md',d);console.log(rows.length);
