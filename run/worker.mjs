// Test execution in a worker process: walks a tree of histories on the real canister and compares.
import {Sut,expected,universe,instCanon} from './drv.mjs';
import {judge} from './tags.mjs';
const suts=new Map();
function sutFor(key,init){let e=suts.get(key);if(!e){const s=new Sut(init);e={s,base:s.snap(),pre:null};suts.set(key,e);}return e;}
const clean=r=>({k:r.k,c:r.c,v:Array.isArray(r.v)?r.v.map(x=>x&&typeof x==='object'&&'k'in x?clean(x):x):r.v});
export const same=(a,e)=>{ // a actual, e expected
  if(e.k==='nd')return true;
  return JSON.stringify(clean(a))===JSON.stringify(normE(e));};
const normE=e=>({k:e.k,c:e.c,v:Array.isArray(e.v)?e.v.map(x=>x&&typeof x==='object'&&!Array.isArray(x)&&'k'in x?normE(x):ordered(x)):ordered(e.v)});
const ordered=x=>x&&typeof x==='object'&&!Array.isArray(x)?('sp'in x?{sp:{p:x.sp.p,s:x.sp.s},fs:x.fs,exp:x.exp,memo:x.memo,at:x.at}:'p'in x?{p:x.p,s:x.s}:x):Array.isArray(x)?x.map(ordered):x;
const sortPerm=(o,e)=>o.op==='q_perms'&&e.k==='ok'?{...e,v:[...e.v].sort()}:o.op==='q_inst'&&e.k==='ok'?{...e,v:instCanon(o.c.perm&&(o.test||Object.values(o.c.perm).some(l=>l.includes('ManageAuthorities')))?e.v:{...e.v,perm:[]})}:e;
let stats={steps:0,obs:0};
function step(s,u,fam,op,x,prev,trail){
  const e=sortPerm(op,x.r);let a,K;stats.steps++;
  try{a=s.exec(op);K=s.observe(u,x.v);}catch(err){return broken(op,err,e);}
  const X=expected(u,x.v,x.b,fam.init);
  const diffs=[];for(const k in X)if(K[k]!==X[k])diffs.push([k,K[k]??null,X[k]]);for(const k in K)if(!(k in X))diffs.push([k,K[k],null]);
  const okr=same(a,e);
  if(okr&&!diffs.length)return null;
  return{op,act:a,exp:e,okr,diffs,K};}
// the canister cannot be installed, or what it answers cannot be read at all: no property is shown then
const broken=(op,err,e)=>({op,act:{k:'?',c:String(err&&err.message||err).slice(0,200),v:[]},exp:e||{k:'ok',c:'',v:[],why:''},okr:false,diffs:[],K:{},broken:true});
const whole=(op,err,fam)=>({op,act:{k:'?',c:String(err&&err.message||err).slice(0,200),v:[]},exp:{k:'ok',c:'',v:[]},okr:false,diffs:[],ndiffs:0,tags:['*']});
// Does the disagreement vanish when the upgrades before it are left out?  Then the upgrade is to blame.
function blame(mm,init,ops,x,u,fam){
  if(!ops.slice(0,-1).some(o=>o.op==='upgrade'))return mm;
  try{const s=new Sut(init);for(const o of ops.slice(0,-1))s.exec(o.op==='upgrade'?{op:'wait',dt:o.dt}:o);
    const r=s.getBlocks(0,5000);s.blocks=(r.out||[]);if(x.b.length)s.blocks.length=Math.max(0,s.blocks.length);
    const y=step(s,u,fam,ops[ops.length-1],x);if(!y||y.diffs.length<mm.diffs.length)mm.upgradeBlamed=true;}catch(e){mm.upgradeBlamed=true;}
  return mm;}
process.on('message',m=>{try{
  if(m.type==='tree'){const{fam,key,prefix,node}=m;let e;try{e=sutFor(key,fam.init);}catch(err){process.send({type:'done',id:m.id,out:[{hist:[],mm:whole({op:'install'},err)}],stats});return;}
    const s=e.s;const u=universe(fam.init,[...fam.prelude,...fam.ops]);const out=[];
    if(e.pre===null){s.restore(e.base);const trail=[];let at=null;try{for(const o of fam.prelude){at=o;s.exec(o);}}catch(err){process.send({type:'done',id:m.id,out:[{hist:[],mm:whole(at,err)}],stats});return;}
      // blocks written by the prelude
      const r=s.getBlocks(0,5000);s.blocks=(r.out||[]);e.pre=s.snap();e.preBlocks=[...s.blocks];}
    s.restore(e.pre);s.blocks=[...e.preBlocks];
    let ok=true;for(const i of prefix){s.exec(fam.ops[i-1]);const x=s.getBlocks(s.blocks.length,s.blocks.length+100);for(const b of x.out||[])s.blocks.push(b);}
    const walk=(n,hist)=>{const sn=n.c.length?s.snap():null;let first=true;
      for(const[i,c]of n.c){if(!first){s.restore(sn);}first=false;
        const op=fam.ops[i-1],h=[...hist,i];
        if(c.x){const mm=step(s,u,fam,op,c.x);if(mm){blame(mm,fam.init,[...fam.prelude,...h.map(j=>fam.ops[j-1])],c.x,u,fam);out.push({hist:h,mm:judge(mm,s,u,fam,h.map(j=>fam.ops[j-1]))});if(out.length>200)return;continue;}}
        else{s.exec(op);const x=s.getBlocks(s.blocks.length,s.blocks.length+100);for(const b of x.out||[])s.blocks.push(b);}
        if(c.c.length)walk(c,h);}};
    walk(node,prefix);process.send({type:'done',id:m.id,out,stats});stats={steps:0,obs:0};}
  else if(m.type==='trace'){const{tr,xs}=m;let s;try{s=new Sut(tr.init);}catch(err){process.send({type:'done',id:m.id,out:[{hist:0,mm:whole({op:'install'},err)}],stats});return;}const u=universe(tr.init,tr.ops);let mm=null,i=0;
    for(;i<xs.length;i++){mm=step(s,u,tr,tr.ops[i],xs[i]);if(mm){blame(mm,tr.init,tr.ops.slice(0,i+1),xs[i],u,tr);break;}}
    process.send({type:'done',id:m.id,out:mm?[{hist:i,mm:judge(mm,s,u,tr,tr.ops.slice(0,i+1))}]:[],stats});stats={steps:0,obs:0};}
  }catch(e){process.send({type:'error',id:m.id,err:e.stack});}});
process.send({type:'ready'});
