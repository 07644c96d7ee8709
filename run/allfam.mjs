// node run/allfam.mjs [tier] [names...]: runs families and reports every disagreement (development aid)
import {ALL,pick} from './families.mjs';import {Pool,explore} from './engine.mjs';
const tier=process.argv[2]||'quick';const names=process.argv.slice(3).length?process.argv.slice(3):Object.keys(ALL);
const pool=new Pool();for(const n of names){const t=Date.now();try{const r=await explore(pool,pick([n],tier),{timeout:3000});
  console.log(n.padEnd(12),'states',r.states,'transitions',r.transitions,'bad',r.bad.length,((Date.now()-t)/1000).toFixed(1)+'s');
  const F=pick([n],tier)[0];const seen=new Set();for(const b of r.bad.sort((x,y)=>x.hist.length-y.hist.length)){const k=JSON.stringify([b.mm.op.op,b.mm.tags]);if(seen.has(k)||seen.size>6)continue;seen.add(k);console.log('   ',b.hist.map(i=>JSON.stringify(F.ops[i-1])).join('\n     '));console.log('      spec',JSON.stringify(b.mm.exp),'\n      real',JSON.stringify(b.mm.act,(k,v)=>typeof v==='bigint'?String(v):v).slice(0,300),'\n      ',b.mm.tags.join(' '),JSON.stringify(b.mm.diffs.slice(0,3)).slice(0,500));}
}catch(e){console.log(n,'ERROR',e.message.slice(0,90000));}}
pool.close();
