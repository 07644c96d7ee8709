// node run/allgen.mjs N LEN SEED [profiles...]: random histories against the implementation (development aid)
import {history,PROFILES,hash} from './gen.mjs';import {Pool,validate} from './engine.mjs';
const[N,LEN,SEED]=process.argv.slice(2,5).map(Number);const names=process.argv.slice(5).length?process.argv.slice(5):Object.keys(PROFILES);
const pool=new Pool();for(const n of names){const t=Date.now();const tr=Array.from({length:N},(_,i)=>history(hash(n+SEED+':'+i),LEN,n));
  try{const r=await validate(pool,tr,{timeout:3000});
  const c={};for(const xs of r.xs)for(const x of xs){const k=x.r.k==='ok'&&Array.isArray(x.r.v)&&x.r.v[0]?.k?x.r.v.map(y=>y.k==='ok'?'ok':y.why)[0]:x.r.k==='ok'?'OK':x.r.why;c[k]=(c[k]||0)+1;}
  console.log(n.padEnd(10),'states',r.states,'bad',r.bad.length,((Date.now()-t)/1000).toFixed(1)+'s',JSON.stringify(c));
  for(const b of r.bad.slice(0,3))console.log('  trace',b.trace,'at',b.at,JSON.stringify(b.mm.op),'\n     spec',JSON.stringify(b.mm.exp).slice(0,600),'\n     real',JSON.stringify(b.mm.act,(k,v)=>typeof v==='bigint'?String(v):v).slice(0,600),'\n    ',b.mm.tags.join(' '),JSON.stringify(b.mm.diffs.slice(0,3)).slice(0,700));
  }catch(e){console.log(n,'ERROR',e.message.slice(-2500));}}
pool.close();
