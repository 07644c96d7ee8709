// A small Internet-Computer emulator: runs real canister wasm in node's WebAssembly engine.
// Semantics kept: message-level atomicity (trap rolls back heap, stable memory, timer, certified data
// and outgoing calls), inter-canister calls with controllable delivery and fault injection, call_on_cleanup,
// queries discarding their state changes, upgrades, timers, management canister, controllable clock.
import fs from 'node:fs';import zlib from 'node:zlib';
import {T,encode,decode,pToText,pFromText,sha256} from './candid.mjs';
const PAGE=65536;
export const MGMT='aaaaa-aa';
class Trap extends Error{}
// ---------- wasm patch: export table 0 and global 0 (stack pointer)
function patch(bytes){
  const rd=p=>{let s=0,r=0,b;do{b=bytes[p++];r|=(b&127)<<s;s+=7;}while(b&128);return[r>>>0,p];};
  const wr=n=>{const o=[];do{let b=n&127;n>>>=7;if(n)b|=128;o.push(b);}while(n);return o;};
  const nm=s=>[...wr(s.length),...Buffer.from(s)];
  const out=[bytes.subarray(0,8)];let p=8;
  while(p<bytes.length){const id=bytes[p];const[len,q]=rd(p+1);const end=q+len;
    if(id===7){const[c,r]=rd(q);const add=[...nm('__vtable'),1,0,...nm('__vsp'),3,0];
      const body=Buffer.concat([Buffer.from(wr(c+2)),bytes.subarray(r,end),Buffer.from(add)]);
      out.push(Buffer.from([7,...wr(body.length)]),body);}
    else out.push(bytes.subarray(p,end));p=end;}
  return Buffer.concat(out);}
// The stack below the stack pointer and the read-only data (first segment, right after the stack) are no state:
// [0, hot) need not be committed or restored between messages.
function hotStart(b){const rd=p=>{let s=0,r=0n,c;do{c=b[p++];r|=BigInt(c&127)<<BigInt(s);s+=7;}while(c&128);return[Number(r),p];};
  let p=8,sp=-1,seg=[];while(p<b.length){const id=b[p];const[len,q]=rd(p+1);
    if(id===6){let[,r]=rd(q);if(b[r]===0x7f&&b[r+1]===1&&b[r+2]===0x41)[sp]=rd(r+3);}
    if(id===11){let[c,r]=rd(q);for(let i=0;i<c;i++){let f,off=-1,l;[f,r]=rd(r);if(f===0&&b[r]===0x41){[off,r]=rd(r+1);r++;}else return 0;[l,r]=rd(r);seg.push([off,l]);r+=l;}}
    p=q+len;}
  return seg.length===2&&seg[0][0]===sp&&seg[1][0]>=sp+seg[0][1]?sp+seg[0][1]:0;}
const modCache=new Map();
export function loadModule(bytes){if(bytes[0]===0x1f)bytes=zlib.gunzipSync(bytes);bytes=Buffer.from(bytes);
  const h=Buffer.from(sha256(bytes)).toString('hex');let m=modCache.get(h);
  if(!m){m={hash:h,hot:hotStart(bytes),mod:new WebAssembly.Module(patch(bytes))};modCache.set(h,m);}return m;}
// ---------- canister
class Can{
  constructor(w,idb){this.w=w;this.idb=idb;this.id=pToText(idb);this.m=null;this.inst=null;this.mem=null;
    this.shadow=null;this.stable=[];this.cert=null;this.timer=0n;this.version=1n;this.status='running';this.controllers=[];this.open=0;this.sp0=0;}
  instantiate(m){this.m=m;this.inst=new WebAssembly.Instance(m.mod,{ic0:imports(this)});this.mem=this.inst.exports.memory;this.sp0=this.inst.exports.__vsp.value;
    this.shadow=null;}
  // shadow = committed heap image
  commit(){const cur=new Uint8Array(this.mem.buffer);const n=cur.length;
    if(process.env.EMU_CHECK&&this.shadow&&Buffer.compare(this.shadow.subarray(this.sp0,this.m.hot),Buffer.from(cur.buffer,this.sp0,this.m.hot-this.sp0)))throw new Error('emulator: read-only data written');
    if(!this.shadow||this.shadow.length!==n){const s=Buffer.allocUnsafe(n);s.set(cur);this.shadow=s;return;}
    const a=Buffer.from(cur.buffer),b=this.shadow;const C=PAGE;
    for(let i=this.m.hot;i<n;i+=C){if(a.compare(b,i,Math.min(i+C,n),i,Math.min(i+C,n))!==0)a.copy(b,i,i,Math.min(i+C,n));}}
  revert(){const n=this.mem.buffer.byteLength;const s=this.shadow;
    if(s.length>n)this.mem.grow((s.length-n)/PAGE);
    if(this.mem.buffer.byteLength>s.length+64*PAGE){const m=this.m;this.instantiate(m);const k=this.mem.buffer.byteLength;if(k<s.length)this.mem.grow((s.length-k)/PAGE);this.shadow=s;}
    const a=Buffer.from(this.mem.buffer);const L=s.length;const C=PAGE;
    for(let i=this.m.hot;i<L;i+=C){const e=Math.min(i+C,L);if(a.compare(s,i,e,i,e)!==0)s.copy(a,i,i,e);}
    if(a.length>L)a.fill(0,L);
    this.inst.exports.__vsp.value=this.sp0;}
}
function imports(c){
  const w=c.w;const u8=()=>new Uint8Array(c.mem.buffer);
  const slice=(p,n)=>new Uint8Array(c.mem.buffer,p>>>0,n>>>0).slice();
  const cp=(src,dst,off,n)=>{off>>>=0;n>>>=0;if(off+n>src.length)throw new Trap('copy out of range');u8().set(src.subarray(off,off+n),dst>>>0);};
  const X=()=>w.x;
  const put128=(dst,v)=>{const d=new DataView(c.mem.buffer);d.setBigUint64(dst>>>0,v,true);d.setBigUint64((dst>>>0)+8,0n,true);};
  const stableW=(off,data)=>{let o=Number(off),i=0;if(o+data.length>c.stable.length*PAGE)throw new Trap('stable out of bounds');
    while(i<data.length){const pg=Math.floor(o/PAGE),po=o%PAGE,k=Math.min(PAGE-po,data.length-i);let P=c.stable[pg];
      if(!P||P.own!==c.epoch){const n={own:c.epoch,d:new Uint8Array(PAGE)};if(P)n.d.set(P.d);c.stable[pg]=P=n;}
      P.d.set(data.subarray(i,i+k),po);o+=k;i+=k;}};
  const stableR=(off,n)=>{let o=Number(off),i=0;if(o+n>c.stable.length*PAGE)throw new Trap('stable out of bounds');const r=new Uint8Array(n);
    while(i<n){const pg=Math.floor(o/PAGE),po=o%PAGE,k=Math.min(PAGE-po,n-i);const P=c.stable[pg];if(P)r.set(P.d.subarray(po,po+k),i);o+=k;i+=k;}return r;};
  const impl={
    time:()=>w.time,
    global_timer_set:t=>{const o=c.timer;c.timer=BigInt.asUintN(64,t);return o;},
    data_certificate_present:()=>X().kind==='query'?1:0,
    data_certificate_size:()=>w.certificate.length,
    data_certificate_copy:(d,o,n)=>cp(w.certificate,d,o,n),
    stable64_size:()=>BigInt(c.stable.length),
    stable64_grow:n=>{const o=c.stable.length;if(o+Number(n)>8*16384)return -1n;for(let i=0;i<Number(n);i++)c.stable.push(null);return BigInt(o);},
    stable64_write:(o,s,n)=>stableW(o,new Uint8Array(c.mem.buffer,Number(s),Number(n))),
    stable64_read:(d,o,n)=>{u8().set(stableR(o,Number(n)),Number(d));},
    canister_cycle_balance128:d=>put128(d,1000000000000000n),
    canister_liquid_cycle_balance128:d=>put128(d,1000000000000000n),
    debug_print:(p,n)=>{if(w.debug)console.error('['+c.id+']',Buffer.from(slice(p,n)).toString());},
    trap:(p,n)=>{throw new Trap(Buffer.from(slice(p,n)).toString());},
    msg_reply:()=>{const x=X();if(x.done)throw new Trap('already replied');x.done={ok:Buffer.concat(x.reply)};},
    msg_reply_data_append:(p,n)=>{X().reply.push(Buffer.from(slice(p,n)));},
    msg_reject:(p,n)=>{const x=X();if(x.done)throw new Trap('already replied');x.done={rej:4,msg:Buffer.from(slice(p,n)).toString()};},
    msg_arg_data_size:()=>X().arg.length,msg_arg_data_copy:(d,o,n)=>cp(X().arg,d,o,n),
    msg_caller_size:()=>X().caller.length,msg_caller_copy:(d,o,n)=>cp(X().caller,d,o,n),
    msg_reject_code:()=>X().rcode||0,
    msg_reject_msg_size:()=>(X().rmsg||new Uint8Array()).length,msg_reject_msg_copy:(d,o,n)=>cp(X().rmsg,d,o,n),
    canister_self_size:()=>c.idb.length,canister_self_copy:(d,o,n)=>cp(c.idb,d,o,n),
    canister_version:()=>c.version,
    cost_call:(a,b,d)=>put128(Number(d),0n),
    call_new:(cp_,cn,mp,mn,rf,re,jf,je)=>{X().cur={callee:pToText(slice(cp_,cn)),method:Buffer.from(slice(mp,mn)).toString(),rf,re,jf,je,arg:[],cf:-1,ce:0,bestEffort:false};},
    call_data_append:(p,n)=>{X().cur.arg.push(Buffer.from(slice(p,n)));},
    call_cycles_add128:()=>{},call_cycles_add:()=>{},
    call_on_cleanup:(f,e)=>{const k=X().cur;k.cf=f;k.ce=e;},
    call_with_best_effort_response:()=>{X().cur.bestEffort=true;},
    call_perform:()=>{const x=X();if(x.kind==='query')throw new Trap('call in query');x.out.push(x.cur);x.cur=null;return 0;},
    certified_data_set:(p,n)=>{c.cert=slice(p,n);},
    msg_cycles_accept128:(a,b,d)=>put128(Number(d),0n),msg_cycles_available128:d=>put128(d,0n),msg_cycles_refunded128:d=>put128(d,0n),
    is_controller:()=>1,performance_counter:()=>0n,in_replicated_execution:()=>X().kind==='query'?0:1,canister_status:()=>1,
    accept_message:()=>{},msg_method_name_size:()=>X().method.length,
  };
  return new Proxy(impl,{get:(t,k)=>t[k]||(()=>{throw new Trap('ic0.'+String(k)+' not emulated');}),has:()=>true});
}
// ---------- world
const LAZY=new Error('emulator: trap in a stretch without commits');
export class World{
  constructor(){this.time=1700000000123456789n;this.cans=new Map();this.nextId=1;this.pending=[];this.ctxs=new Map();this.nextCtx=1;this.seq=1;this.epochN=1;
    this.certificate=Buffer.from('d9d9f7a0','hex');this.x=null;this.debug=false;this.policy=null;this.results=new Map();this.calllog=[];this.trapLog=[];this.stats={msgs:0,queries:0,traps:0};}
  newId(){const n=this.nextId++;const b=new Uint8Array(10);b[6]=n>>8;b[7]=n;b[8]=1;b[9]=1;return b;}
  create(controllers=[]){const c=new Can(this,this.newId());c.controllers=controllers;c.epoch=this.epochN++;this.cans.set(c.id,c);return c.id;}
  c(id){return this.cans.get(id);}
  install(id,wasm,arg,caller){const c=this.c(id);const m=loadModule(wasm);c.stable=[];c.timer=0n;c.cert=null;c.instantiate(m);c.shadow=null;
    const r=this.hook(c,'canister_init',arg,caller);if(r.rej){c.m=null;c.inst=null;c.mem=null;}else c.version++;return r;}
  upgrade(id,wasm,arg,caller){const c=this.c(id);const snap=this.canSnap(c);
    let r=this.hook(c,'canister_pre_upgrade',new Uint8Array(),caller);if(r.rej){this.canRestore(c,snap);return r;}
    c.timer=0n;const m=loadModule(wasm);c.instantiate(m);c.shadow=null;
    r=this.hook(c,'canister_post_upgrade',arg,caller);if(r.rej)this.canRestore(c,snap);else {c.version++;c.callGen=(c.callGen||0)+1;}return r;}
  hook(c,name,arg,caller){if(!c.inst.exports[name]){c.commit();return{ok:Buffer.alloc(0)};}
    const x={kind:'hook',arg,caller:pFromText(caller),reply:[],out:[],done:null,method:name};
    if(!c.shadow)c.commit();
    const r=this.exec(c,x,()=>c.inst.exports[name]());if(r)return{rej:5,msg:r};this.flushOut(c,x,null);return{ok:Buffer.alloc(0)};}
  // run fn in c under execution record x; returns trap message or null. Commits / reverts c.
  exec(c,x,fn){const st=c.stable.slice(),tm=c.timer,ce=c.cert;const prev=this.x;this.x=x;this.stats.msgs++;c.epoch=this.epochN++;
    try{fn();if(this.lazy)c.dirty=true;else c.commit();c.version++;return null;}
    catch(e){if(!(e instanceof Trap)&&!(e instanceof WebAssembly.RuntimeError)&&!(e instanceof RangeError))throw e;
      if(this.lazy)throw LAZY;
      this.stats.traps++;if(process.env.EMU_TRAPS)console.error('TRAP',c.id,x.method,e.message);
      c.stable=st;c.timer=tm;c.cert=ce;c.revert();x.out=[];return e.message||'trap';}
    finally{this.x=prev;}}
  flushOut(c,x,ctx){for(const k of x.out){k.id=this.seq++;k.from=c.id;k.ctx=ctx;k.gen=c.callGen||0;if(ctx)ctx.outstanding++;c.open++;
      this.pending.push({id:k.id,type:'request',call:k,to:k.callee,method:k.method,from:c.id});}x.out=[];}
  // ---- ingress
  submit(id,method,arg,caller){const rid=this.seq++;this.pending.push({id:rid,type:'ingress',to:id,method,arg,caller,from:caller});return rid;}
  update(id,method,arg,caller){const rid=this.submit(id,method,arg,caller);this.run();const r=this.results.get(rid);if(!r)return{hang:true,rid};this.results.delete(rid);return r;}
  take(rid){const r=this.results.get(rid);this.results.delete(rid);return r;}
  query(id,method,arg,caller){const c=this.c(id);const r=this.rawQuery(c,method,arg,caller);c.revert();return r;}
  // many queries, one state restoration; list of {method,arg,caller}
  queries(id,list){const c=this.c(id);const o=list.map(q=>this.rawQuery(c,q.method,q.arg,q.caller));c.revert();return o;}
  rawQuery(c,method,arg,caller){this.stats.queries++;if(!c||!c.inst)return{rej:3,msg:'no module'};const f=c.inst.exports['canister_query '+method]||c.inst.exports['canister_composite_query '+method];
    if(!f){if(c.inst.exports['canister_update '+method])return{rej:3,msg:'not a query '+method};return{rej:3,msg:'no method '+method};}
    const x={kind:'query',arg,caller:pFromText(caller),reply:[],out:[],done:null,method};const prev=this.x;this.x=x;const st=c.stable.slice(),tm=c.timer,ce=c.cert;c.epoch=this.epochN++;
    try{f();return x.done||{rej:5,msg:'no reply'};}catch(e){if(!(e instanceof Trap)&&!(e instanceof WebAssembly.RuntimeError)&&!(e instanceof RangeError))throw e;c.stable=st;c.timer=tm;c.cert=ce;c.revert();return{rej:5,msg:e.message};}
    finally{this.x=prev;c.stable=st;c.timer=tm;c.cert=ce;}}
  // ---- delivery
  run(limit=100000){while(this.pending.length&&limit-->0){const i=this.pending.findIndex(m=>!m.held);if(i<0)return;this.deliver(i);}if(limit<=0)throw new Error('emulator: message storm');}
  deliver(i=0){const m=this.pending.splice(i,1)[0];
    if(m.type==='response')return this.doResponse(m);
    // request or ingress
    if(m.type==='request'){this.calllog.push({from:m.from,to:m.to,method:m.method});
      if(this.policy){const f=this.policy(m);if(f){if(f.hold){m.held=f.hold;this.pending.push(m);return;}if(f.holdReply||f.before===false){/*executed, but answer lost*/this.execRequest(m,f);return;}
        this.respond({origin:m},f.ok?{ok:f.ok}:{rej:f.rej||1,msg:f.msg||'injected'});return;}}}
    this.execRequest(m,null);}
  execRequest(m,drop){const origin=m;
    const ctx={id:this.nextCtx++,origin,outstanding:0,answered:false,to:m.to,method:m.method,drop};
    if(m.to===MGMT){this.respond(ctx,this.mgmt(m));return;}
    const c=this.c(m.to);const arg=m.type==='ingress'?m.arg:Buffer.concat(m.call.arg);const caller=m.type==='ingress'?m.caller:m.from;
    if(!c){this.respond(ctx,{rej:3,msg:'no canister '+m.to});return;}
    if(!c.inst){this.respond(ctx,{rej:5,msg:'no wasm module'});return;}
    if(c.status!=='running'){this.respond(ctx,{rej:5,msg:'canister stopped'});return;}
    const ex=c.inst.exports;const f=ex['canister_update '+m.method]||ex['canister_query '+m.method];
    if(!f){this.respond(ctx,{rej:3,msg:'no method '+m.method});return;}
    const isQ=!ex['canister_update '+m.method];
    if(isQ){if(c.dirty){c.commit();c.dirty=false;}const x={kind:'rquery',arg,caller:pFromText(caller),reply:[],out:[],done:null,method:m.method};
      const st=c.stable.slice(),tm=c.timer,ce=c.cert;const prev=this.x;this.x=x;c.epoch=this.epochN++;this.stats.msgs++;let r;
      try{f();r=x.done||{rej:5,msg:'no reply'};}catch(e){if(!(e instanceof Trap)&&!(e instanceof WebAssembly.RuntimeError))throw e;r={rej:5,msg:e.message};}
      finally{this.x=prev;c.stable=st;c.timer=tm;c.cert=ce;c.revert();}
      this.respond(ctx,r);return;}
    this.ctxs.set(ctx.id,ctx);
    const x={kind:'update',arg,caller:pFromText(caller),reply:[],out:[],done:null,method:m.method,ctx};
    const t=this.exec(c,x,()=>f());this.after(c,ctx,x,t);}
  after(c,ctx,x,t){
    if(t!==null){if(this.onTrap)this.onTrap(c,x,t);}
    else{this.flushOut(c,x,ctx);if(x.done&&!ctx.answered)this.respond(ctx,x.done);}
    if(t!==null&&!ctx.answered&&ctx.outstanding===0)this.respond(ctx,{rej:5,msg:t});
    if(ctx.outstanding===0&&!ctx.answered)this.respond(ctx,{rej:5,msg:'canister did not reply'});
    if(ctx.outstanding===0)this.ctxs.delete(ctx.id);}
  respond(ctx,r){ctx.answered=true;const o=ctx.origin;
    if(ctx.drop&&ctx.drop.before===false)r={rej:ctx.drop.rej||6,msg:ctx.drop.msg||'injected'};
    if(o.type==='ingress'){this.results.set(o.id,r);return;}
    if(o.type==='none')return;
    this.pending.push({id:this.seq++,type:'response',call:o.call,to:o.from,from:o.to,method:o.method,r,held:ctx.drop&&ctx.drop.holdReply||!!(r.held)});}
  doResponse(m){const k=m.call,c=this.c(m.to);c.open--;const ctx=k.ctx;if(ctx)ctx.outstanding--;
    if(!c.inst)return; 
    const ok='ok' in m.r;const x={kind:'cb',arg:ok?m.r.ok:new Uint8Array(),caller:c.idb,reply:[],out:[],done:null,method:'cb:'+k.method,ctx,rcode:ok?0:m.r.rej,rmsg:ok?new Uint8Array():Buffer.from(m.r.msg||'')};
    if(ctx){const o=ctx.origin;x.caller=pFromText(o.type==='ingress'?o.caller:o.type==='request'?o.from:MGMT);}
    const tb=c.inst.exports.__vtable;
    if((c.callGen||0)!==k.gen){ // canister was upgraded meanwhile: closure pointers are stale -> trap, as on the IC this is undefined/likely trap
      if(ctx&&!ctx.answered&&ctx.outstanding===0)this.respond(ctx,{rej:5,msg:'upgraded during call'});return;}
    const t=this.exec(c,x,()=>ok?tb.get(k.rf)(k.re):tb.get(k.jf)(k.je));
    if(t!==null&&k.cf>=0){const x2={kind:'cleanup',arg:new Uint8Array(),caller:x.caller,reply:[],out:[],done:null,method:'cleanup:'+k.method,ctx};
      this.exec(c,x2,()=>tb.get(k.cf)(k.ce));}
    if(ctx)this.after(c,ctx,x,t);else if(t===null)this.flushOut(c,x,null);}
  // ---- timers and clock
  advance(ns){this.time+=BigInt(ns);}
  fireTimers(only){for(const c of [...this.cans.values()]){if(only&&c.id!==only)continue;if(!c.inst||c.timer===0n||c.timer>this.time||!c.inst.exports.canister_global_timer)continue;
      c.timer=0n;const ctx={id:this.nextCtx++,origin:{type:'none'},outstanding:0,answered:true,to:c.id,method:'timer'};this.ctxs.set(ctx.id,ctx);
      const x={kind:'timer',arg:new Uint8Array(),caller:pFromText(MGMT),reply:[],out:[],done:null,method:'timer',ctx};
      const t=this.exec(c,x,()=>c.inst.exports.canister_global_timer());this.after(c,ctx,x,t);}}
  // advance by ns, firing timers at their due times and delivering everything
  // A long stretch of time is run without committing the heap after each message; should one trap, the stretch is run again with commits.
  tick(ns){if(BigInt(ns)<3600000000000n||this.lazy||this.policy)return this.tick1(ns);
    const s=this.snap();this.lazy=true;
    try{this.tick1(ns);for(const c of this.cans.values())if(c.dirty){c.commit();c.dirty=false;}this.lazy=false;}
    catch(e){this.lazy=false;if(e!==LAZY)throw e;for(const c of this.cans.values())c.dirty=false;this.x=null;this.restore(s);this.tick1(ns);}}
  tick1(ns){let end=this.time+BigInt(ns);for(;;){let nx=end;for(const c of this.cans.values())if(c.inst&&c.timer>0n&&c.timer<nx)nx=c.timer;
      if(nx<this.time)nx=this.time;this.time=nx;const due=[...this.cans.values()].some(c=>c.inst&&c.timer>0n&&c.timer<=this.time);
      if(due){this.fireTimers();this.run();}else if(this.time>=end)return;}}
  // ---- management canister
  mgmt(m){const a=(()=>{try{return decode(Buffer.concat(m.call.arg));}catch(e){return null;}})();
    const cid=a&&a[0]&&a[0].canister_id;
    switch(m.method){
      case'create_canister':{if(this.failCreate)return{rej:this.failCreate,msg:'create failed'};const s=a[0]&&a[0].settings&&a[0].settings[0];const ctl=s&&s.controllers&&s.controllers[0]?s.controllers[0]:[m.from];const id=this.create(ctl);return{ok:encode([T.record({canister_id:T.principal})],[{canister_id:id}])};}
      case'install_code':case'install_chunked_code':{const mode=Object.keys(a[0].mode)[0];
        try{const r=mode==='upgrade'?this.upgrade(cid,a[0].wasm_module,a[0].arg,m.from):this.install(cid,a[0].wasm_module,a[0].arg,m.from);
        return r.rej?r:{ok:encode([],[])};}catch(e){if(e instanceof WebAssembly.CompileError)return{rej:5,msg:'bad wasm'};throw e;}}
      case'canister_status':{const c=this.c(cid);if(!c)return{rej:3,msg:'no canister'};
        return{ok:encode([T.record({status:T.variant({running:T.null,stopping:T.null,stopped:T.null}),
          settings:T.record({controllers:T.vec(T.principal),compute_allocation:T.nat,memory_allocation:T.nat,freezing_threshold:T.nat,reserved_cycles_limit:T.nat,log_visibility:T.variant({controllers:T.null,public:T.null,allowed_viewers:T.vec(T.principal)}),wasm_memory_limit:T.nat,wasm_memory_threshold:T.nat}),
          module_hash:T.opt(T.blob),memory_size:T.nat,cycles:T.nat,reserved_cycles:T.nat,idle_cycles_burned_per_day:T.nat,
          memory_metrics:T.record({wasm_memory_size:T.nat,stable_memory_size:T.nat,global_memory_size:T.nat,wasm_binary_size:T.nat,custom_sections_size:T.nat,canister_history_size:T.nat,wasm_chunk_store_size:T.nat,snapshots_size:T.nat}),
          query_stats:T.record({num_calls_total:T.nat,num_instructions_total:T.nat,request_payload_bytes_total:T.nat,response_payload_bytes_total:T.nat})})],
          [{status:{[c.status]:null},settings:{controllers:c.controllers,compute_allocation:0n,memory_allocation:0n,freezing_threshold:0n,reserved_cycles_limit:0n,log_visibility:{controllers:null},wasm_memory_limit:0n,wasm_memory_threshold:0n},
            module_hash:c.m?[Buffer.from(c.m.hash,'hex')]:[],memory_size:BigInt(this.memSize??(c.mem?c.mem.buffer.byteLength:0)),cycles:100000000000000n,reserved_cycles:0n,idle_cycles_burned_per_day:1000n,
            memory_metrics:{wasm_memory_size:0n,stable_memory_size:0n,global_memory_size:0n,wasm_binary_size:0n,custom_sections_size:0n,canister_history_size:0n,wasm_chunk_store_size:0n,snapshots_size:0n},
            query_stats:{num_calls_total:0n,num_instructions_total:0n,request_payload_bytes_total:0n,response_payload_bytes_total:0n}}])};}
      case'start_canister':this.c(cid).status='running';return{ok:encode([],[])};
      case'stop_canister':this.c(cid).status='stopped';return{ok:encode([],[])};
      case'update_settings':case'deposit_cycles':return{ok:encode([],[])};
      case'delete_canister':this.cans.delete(cid);return{ok:encode([],[])};
      case'raw_rand':return{ok:encode([T.blob],[sha256(Buffer.from(String(this.seq)))])};
      default:return{rej:3,msg:'mgmt '+m.method+' not emulated'};}}
  // ---- snapshots (only when no call is in flight, unless keepPending)
  canSnap(c){return{m:c.m,heap:c.shadow?snapHeap(c):null,stable:c.stable.slice(),cert:c.cert,timer:c.timer,version:c.version,status:c.status,open:c.open,callGen:c.callGen};}
  canRestore(c,s){c.stable=s.stable.slice();c.epoch=this.epochN++;c.cert=s.cert;c.timer=s.timer;c.version=s.version;c.status=s.status;c.open=s.open;c.callGen=s.callGen;
    if(!s.m){c.m=null;c.inst=null;c.mem=null;c.shadow=null;return;}
    if(c.m!==s.m)c.instantiate(s.m);loadHeap(c,s.heap);}
  snap(){return{time:this.time,nextId:this.nextId,cans:[...this.cans.values()].map(c=>[c,this.canSnap(c)]),pending:this.pending.map(m=>({...m})),seq:this.seq,
      ctxs:[...this.ctxs.values()].map(x=>[x,{...x}]),results:new Map(this.results),policy:this.policy,memSize:this.memSize,failCreate:this.failCreate,user:this.user&&structuredClone(this.user)};}
  restore(s){this.time=s.time;this.nextId=s.nextId;this.cans=new Map();for(const[c,cs]of s.cans){this.cans.set(c.id,c);this.canRestore(c,cs);}
    this.pending=s.pending.map(m=>({...m}));this.seq=s.seq;this.ctxs=new Map();for(const[x,cp]of s.ctxs){Object.assign(x,cp);this.ctxs.set(x.id,x);}
    this.results=new Map(s.results);this.policy=s.policy;this.memSize=s.memSize;this.failCreate=s.failCreate;this.user=s.user&&structuredClone(s.user);}
}
// page-deduplicated heap images
const bases=new Map(); // module hash -> base image
function snapHeap(c){const s=c.shadow;let b=bases.get(c.m.hash);if(!b){b=Buffer.from(s);bases.set(c.m.hash,b);}
  const pages=[];const n=s.length;const p0=Math.floor(c.m.hot/PAGE);for(let p=p0,i=p0*PAGE;i<n;i+=PAGE,p++){if(i+PAGE<=b.length&&s.compare(b,i,i+PAGE,i,i+PAGE)===0)continue;pages.push([p,Buffer.from(s.subarray(i,i+PAGE))]);}
  return{n,b,pages};}
function loadHeap(c,h){let t=c.shadow;const p0=Math.floor(c.m.hot/PAGE)*PAGE;
  if(!t||t.length!==h.n){t=Buffer.allocUnsafe(h.n);h.b.copy(t,0,0,Math.min(h.n,h.b.length));if(h.n>h.b.length)t.fill(0,h.b.length);}
  else{h.b.copy(t,p0,p0,Math.min(h.n,h.b.length));}
  for(const[p,d]of h.pages)d.copy(t,p*PAGE);c.shadow=t;c.revert();}
