// node run/check.mjs <property>: decides one property; see DESIGN.md.
import fs from 'node:fs';import path from 'node:path';import {fileURLToPath} from 'node:url';
import {build} from './build.mjs';
const ROOT=path.join(path.dirname(fileURLToPath(import.meta.url)),'..');
const id=process.argv[2],tier=process.argv[3]||process.env.VERIF_TIER||'quick',seed=+(process.env.VERIF_SEED||1);
const t0=Date.now();
const {PLANS}=await import('./plans.mjs');
const plan=PLANS[id];if(!plan){console.error('no plan for '+id);process.exit(2);}
const tb=build(plan.pkgs||['core_nft']);console.log(`built in ${tb.toFixed(1)} s`);
const {run}=await import(plan.runner||'./ledger.mjs');
const res=await run(id,plan,tier,seed);
fs.mkdirSync(path.join(ROOT,'evidence'),{recursive:true});
// findings that are already known
const known=fs.existsSync(path.join(ROOT,'known-findings.txt'))?fs.readFileSync(path.join(ROOT,'known-findings.txt'),'utf8').split('\n').map(l=>/^finding: property=(\S+) key=(\S+) (.*)$/.exec(l)).filter(Boolean).map(m=>({property:m[1],key:m[2],text:m[3]})):[];
let n=0;const seen=new Set();
for(const v of res.violations){const k=known.find(k=>k.property===id&&k.key===v.key);if(k){if(!seen.has(k.key)){seen.add(k.key);console.log(`KNOWN-FINDING: property=${id} ${k.text}`);}continue;}
  n++;if(n>5)continue;const f=path.join(ROOT,'evidence',`${id}-violation-${n}.json`);fs.writeFileSync(f,JSON.stringify(v,(k,x)=>typeof x==='bigint'?String(x):x,1));
  console.log(v.text);console.log(`VIOLATION property=${id} replay=${f}`);}
const ev={property:id,tier,seed,level:res.level||'model_checking',coverage:res.coverage,assumptions:res.assumptions||[],wall_s:(Date.now()-t0)/1000,violations:n};
fs.writeFileSync(path.join(ROOT,'evidence',id+'.json'),JSON.stringify(ev,null,1));
console.log(`${id} ${tier}: ${JSON.stringify({...res.coverage,samples:undefined})} ${n} violations, ${((Date.now()-t0)/1000).toFixed(1)} s`);
process.exit(n?1:0);
