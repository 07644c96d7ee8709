// Decides the properties of the ledger canister: exhaustive families, then long random histories.
import {Pool,explore,validate} from './engine.mjs';
const show=(k,v)=>typeof v==='bigint'?String(v):v;
export function text(o){return`step ${JSON.stringify(o.op)}\n  specified ${JSON.stringify(o.exp)}\n  observed  ${JSON.stringify(o.act,show)}\n`+o.diffs.map(([k,a,x])=>`  ${k}: specified ${x}, observed ${a}`).join('\n')+`\n  properties ${o.tags.join(' ')}`;}
export async function run(id,plan,tier,seed){
  const pool=new Pool();const violations=[];const cov={states:0,transitions:0,traces_validated_against_impl:0,families:[],samples:[]};
  const other=new Map();
  const take=(o,rec)=>{if(o.tags.includes(id)||o.tags.includes('*'))violations.push({key:rec.key,text:text(o),...rec,...o});else other.set(o.tags.join(','),(other.get(o.tags.join(','))||0)+1);};
  try{
    const fams=plan.families(tier,seed);
    if(fams.length){const r=await explore(pool,fams,{timeout:tier==='quick'?300:3000});
      cov.states+=r.states;cov.transitions+=r.transitions;cov.traces_validated_against_impl+=r.transitions;
      cov.families=fams.map(f=>`${f.name}: ${f.ops.length} operations, depth ${f.depth}`);
      for(const f of fams.slice(0,2))cov.samples.push({family:f.name,prelude:f.prelude,operations:f.ops.slice(0,6)});
      for(const b of r.bad){const f=fams[b.fam];take(b.mm,{key:f.name+':'+b.hist.join('.')+':'+b.mm.act.k,kind:'family',family:f.name,init:f.init,ops:[...f.prelude,...b.hist.map(i=>f.ops[i-1])]});}}
    const traces=plan.traces?plan.traces(tier,seed):[];
    if(traces.length){const r=await validate(pool,traces,{timeout:tier==='quick'?300:3000});
      cov.states+=r.states;cov.transitions+=r.transitions;cov.traces_validated_against_impl+=traces.length;
      cov.samples.push({trace:traces[0].ops.slice(0,5)});
      for(const b of r.bad){const t=traces[b.trace];take(b.mm,{key:'trace:'+b.trace+':'+b.at,kind:'trace',init:t.init,ops:t.ops.slice(0,b.at+1)});}}
  }finally{pool.close();}
  if(other.size)cov.disagreements_about_other_properties=Object.fromEntries(other);
  return{violations,coverage:cov,level:'model_checking',assumptions:['the emulator (emu/ic.mjs) treats messages as the Internet Computer does','rustc and node execute the canister faithfully']};}
