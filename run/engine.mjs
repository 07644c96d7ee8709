// Runs families through TLC and the resulting tests through worker processes.
import {fork} from 'node:child_process';import path from 'node:path';import {fileURLToPath} from 'node:url';import os from 'node:os';
import {tlc} from './tlc.mjs';
const HERE=path.dirname(fileURLToPath(import.meta.url));
export const NPROC=Math.min(8,os.cpus().length);
export class Pool{
  constructor(n=NPROC,file='worker.mjs'){this.q=[];this.idle=[];this.all=[];this.cb=new Map();this.id=0;
    for(let i=0;i<n;i++){const p=fork(path.join(HERE,file),[],{serialization:'advanced',execArgv:['--max-old-space-size=3000'],stdio:['ignore','inherit','inherit','ipc']});this.all.push(p);
      p.on('message',m=>{if(m.type==='ready'){this.idle.push(p);this.pump();return;}const c=this.cb.get(m.id);this.cb.delete(m.id);p.job=null;this.idle.push(p);this.pump();if(m.type==='error')c.rej(new Error(m.err));else c.res(m);});
      p.on('exit',(code,sig)=>{if(!this.closed){const c=p.job&&this.cb.get(p.job);if(c)c.rej(new Error('worker ended '+code+' '+sig));}});}}
  run(msg){return new Promise((res,rej)=>{const id=++this.id;this.cb.set(id,{res,rej});this.q.push({...msg,id});this.pump();});}
  pump(){while(this.q.length&&this.idle.length){const p=this.idle.pop(),m=this.q.shift();p.job=m.id;p.send(m);}}
  close(){this.closed=true;for(const p of this.all)p.kill('SIGKILL');}
}
function size(n){let k=0;for(const[,c]of n.c)k+=1+size(c);return n.n=k;}
// tests for all transitions of the families, split into tasks
export async function explore(pool,fams,{timeout=600,maxTask=150}={}){
  const r=await tlc('MC',{fams},{timeout,workers:NPROC});
  if(!r.ok){const e=new Error('TLC: '+r.log.slice(-4000));e.tlc=r;throw e;}
  const roots=fams.map(()=>({c:[],m:new Map()}));
  for(const l of r.lines){let n=roots[l.f-1];for(const i of l.h){let k=n.m.get(i);if(!k){k={c:[],m:new Map()};n.m.set(i,k);n.c.push([i,k]);}n=k;}n.x={r:l.r,v:l.v,b:l.b};}
  const strip=n=>({c:n.c.map(([i,c])=>[i,strip(c)]),x:n.x});
  const jobs=[];
  roots.forEach((root,f)=>{size(root);
    const emit=(prefix,node)=>jobs.push(pool.run({type:'tree',fam:{...fams[f]},key:fams[f].name+'|'+JSON.stringify(fams[f].prelude)+JSON.stringify(fams[f].init),prefix,node:strip(node)}).then(m=>({f,m})));
    const split=(prefix,node)=>{
      if(node.n<=maxTask){if(node.c.length)emit(prefix,node);return;}
      // children here are tested in a shallow task; big subtrees go their own way
      const shallow={c:[],x:null};
      for(const[i,c]of node.c){if(c.n>maxTask/2){shallow.c.push([i,{c:[],m:null,x:c.x}]);split([...prefix,i],c);}else shallow.c.push([i,c]);}
      if(shallow.c.length){let cur={c:[],x:null},k=0;for(const e of shallow.c){cur.c.push(e);k+=1+(e[1].n||0);if(k>maxTask){emit(prefix,cur);cur={c:[],x:null};k=0;}}if(cur.c.length)emit(prefix,cur);}};
    split([],root);});
  const res=await Promise.all(jobs);
  const bad=[];let steps=0;for(const{f,m}of res){steps+=m.stats.steps;for(const o of m.out)bad.push({fam:f,hist:o.hist,mm:o.mm});}
  return{bad,steps,states:r.distinct,transitions:r.lines.length};}
// recorded histories, validated by the specification and compared with the implementation
export async function validate(pool,traces,{timeout=600}={}){
  const r=await tlc('Trace',{traces},{timeout,workers:NPROC});
  if(!r.ok){const e=new Error('TLC: '+r.log.slice(-4000));e.tlc=r;throw e;}
  const xs=traces.map(()=>[]);for(const l of r.lines)xs[l.t-1][l.i-1]={r:l.r,v:l.v,b:l.b};
  const res=await Promise.all(traces.map((tr,i)=>pool.run({type:'trace',tr,xs:xs[i]}).then(m=>({i,m}))));
  const bad=[];let steps=0;for(const{i,m}of res){steps+=m.stats.steps;for(const o of m.out)bad.push({trace:i,at:o.hist,mm:o.mm});}
  return{bad,steps,states:r.distinct,transitions:r.lines.length,xs};}
