// Random histories.  A rough idea of the state steers the choice towards operations that succeed;
// what the operations must do is decided by the specification alone.
import {A,init,mint,burn,xi,xfer,fi,xfrom,ai,appr,ci,apprc,ri,rev,rci,revc,umeta,ucfg,grant,revoke,wait,upgrade,q,req,now,iu,sc,fu,cu,end,waitf,DAY,UPERM,fa,ty,tk,xinst,xup,xq,xend,waith,METHS} from './fam.mjs';
import {keyOf,badPath} from './abs.mjs';
export function rng(seed){let a=seed>>>0;const f=()=>{a=a+0x6D2B79F5|0;let t=Math.imul(a^a>>>15,1|a);t=t+Math.imul(t^t>>>7,61|t)^t;return((t^t>>>14)>>>0)/4294967296;};
  f.int=n=>Math.floor(f()*n);f.pick=l=>l[f.int(l.length)];f.p=x=>f()<x;f.w=o=>{let s=0;for(const k in o)s+=o[k];let r=f()*s;for(const k in o){r-=o[k];if(r<0)return k;}return Object.keys(o)[0];};return f;}
export const hash=s=>{let h=2166136261;for(const c of s)h=Math.imul(h^c.charCodeAt(0),16777619);return h>>>0;};
const PEOPLE=['a','b','c','d'],SUBS=[0,0,0,1,2,3,-1];
const PS=['Minting','ManageAuthorities','UpdateMetadata','UpdateCollectionMetadata','ReadUploads','UpdateUploads'];
const same=(x,y)=>x.p===y.p&&Math.max(0,x.s)===Math.max(0,y.s);
export const BASE={mint:6,burn:5,xfer:14,xfrom:16,appr:16,apprc:10,rev:7,revc:6,umeta:3,ucfg:2,grant:1,revoke:1,wait:2,upgrade:0.6,query:8};
export const PROFILES={
  mix:{},
  fast:{dts:{0:4,1:1,20:3,45:3,60:3,61:2,130:2,200:1},w:{xfer:20,xfrom:20,appr:15,wait:0.5}},
  coll:{w:{apprc:22,revc:12,xfrom:24,appr:5,xfer:10}},
  token:{w:{appr:26,rev:14,xfrom:20,xfer:12,apprc:4},few:1},
  limits:{maxappr:[1,2,3,4],maxrev:[1,2,3],w:{appr:24,apprc:18,rev:14,revc:12},few:1,batch:0.5},
  mint:{w:{mint:22,burn:14,xfer:10},cap:[2,4,7,12],cfgp:0.5},
  config:{w:{ucfg:14,query:22,grant:0,revoke:0},cfgp:0.6},
  perm:{w:{grant:20,revoke:16,mint:14,umeta:12,ucfg:8,query:14},admins:1},
  times:{statedp:0.8,w:{}},dup:{w:{xfer:24,xfrom:18,appr:10,wait:1},repeat:0.35,dts:{0:2,10:5,40:4,100:2,150:1,300:1}},
  batch:{batch:0.75,cfgp:0.4,w:{xfer:20,xfrom:20,appr:16,apprc:10,rev:10,revc:8,mint:8}},
  upgrade:{w:{upgrade:7,umeta:6,grant:3,ucfg:4},cfgp:0.4},
  meta:{w:{umeta:20,mint:10,burn:6,xfer:5,query:5,upgrade:1.5}},
  upload:{up:1,w:{mint:3,burn:1,xfer:3,xfrom:2,appr:2,apprc:1,rev:1,revc:1,umeta:2,ucfg:1,grant:2,revoke:1,wait:1,upgrade:2,query:1,iu:10,sc:26,fu:12,cu:4,upq:8,days:1.5},hold:0.08,fault:0.08},
  hold:{up:1,w:{mint:6,burn:3,xfer:3,xfrom:2,appr:2,apprc:1,rev:1,revc:1,umeta:4,ucfg:3,grant:3,revoke:2,wait:1,upgrade:3,query:1,iu:10,sc:20,fu:9,cu:4,upq:3,days:0.4},hold:0.5,fault:0.02},
  fault:{up:1,w:{mint:1,burn:0,xfer:1,xfrom:0,appr:0,apprc:0,rev:0,revc:0,umeta:0,ucfg:0,grant:0,revoke:0,wait:0.5,upgrade:1,query:0,iu:12,sc:20,fu:12,cu:5,upq:5,days:1},hold:0.03,fault:0.4},
  arch:{arch:1,dts:{130:8,200:10,1000:3,60000:1,119000:1,300000:1.5,600000:1.5},w:{upgrade:2,query:2,wait:3,mint:10},few:0},
  index:{x:1,dts:{130:8,200:10,1000:3,60000:1.5,20000:1,600000:0.3},w:{upgrade:1,query:1,wait:1,mint:8,ucfg:0,grant:0,revoke:0,xq:26,xround:14,xend:8,xup:3},few:0},
  consent:{batch:0.6,ask:0.8,w:{xfer:12,xfrom:12,appr:12,apprc:16,rev:9,revc:9,umeta:1,ucfg:1,upgrade:0.5}},
  install:{cfgp:0.7,w:{inst:30,query:12,ucfg:4,grant:2,revoke:2,upgrade:2}},
  page:{w:{query:40,mint:8,appr:14,apprc:12},many:1},
};
export function history(seed,len,profile='mix'){
  const P=PROFILES[profile],f=rng(seed),w={...BASE,...P.w};
  const cfg={};if(f.p(P.cfgp??0.25)){for(const[k,l]of Object.entries({supply_cap:[3,6,20,10000],max_query_batch_size:[1,2,4,100,2000000000],max_update_batch_size:[1,2,3,8,2000000000],max_take_value:[1,2,3,50,1900000000],default_take_value:[1,2,5],max_memo_size:[0,2,8],atomic_batch_transfers:[0,1],tx_window:[500,3000,60000],permitted_drift:[0,20,4000],description:['about'],logo:['https://x.org/l'],max_canister_storage_threshold:[9]}))if(f.p(0.35))cfg[k]=f.pick(l);}
  if(P.cap)cfg.supply_cap=f.pick(P.cap);
  if(cfg.tx_window!==undefined)delete cfg.tx_window;   // at installation it would also slow the log down; set by ucfg instead
  const o={...cfg};if(P.maxappr||f.p(0.2))o.maxappr=f.pick(P.maxappr||[2,3,5]);if(P.maxrev||f.p(0.2))o.maxrev=f.pick(P.maxrev||[1,2,4]);
  const perm={admin:['Minting','UpdateMetadata','UpdateCollectionMetadata','ManageAuthorities']};
  if(P.admins||f.p(0.3)){perm.b=PS.filter(()=>f.p(0.4));perm.a=PS.filter(()=>f.p(0.3));}
  if(P.up){perm.admin=[...UPERM.admin];if(f.p(0.5))perm.b=[...(perm.b||[]),'UpdateUploads'];if(f.p(0.3))perm.c=['ReadUploads'];}
  o.perm=perm;if(f.p(0.25))o.test=1;
  // uploads: what is likely to be open, and the call that is waiting
  const ups=new Map();let held=null;const PATH=['/a','a','/b','/b-c','/dir/x.png','/ü','/x//y','/m/','/logs','/b c','/f1','/f2','/f3','/f4','/f5','f6'];
  const M={iu:['get_storage_size','full','init_upload','create_canister','install_code'],sc:['store_chunk'],fu:['finalize_upload'],cu:['cancel_upload']};
  const how=k=>{const x={dt:f.p(0.6)?0:dt(),by:f.p(0.93)?'admin':f.pick(PEOPLE)};if(!held&&f.p(P.hold))x.hold=f.pick(k==='iu'?['first','req','rep']:['req','rep']);else if(f.p(P.fault)){const m=f.pick(M[k]);x.f=[m,m==='install_code'?1:f.pick([1,2,3,99])];}return x;};
  const eff=(x,g)=>{if(x.by!=='admin'||held||(x.f&&x.f[1]>2))return;if(x.hold)held=g;else g();};
  const own=new Map(),seen=[],granted=[];let nxt=1,t=0;const apps=[];const ops=[];
  const acc=()=>A(f.p(0.04)?'anon':f.pick(PEOPLE),f.pick(SUBS));
  const dt=()=>+f.w(P.dts||{0:3,1:1,20:2,61:2,130:8,200:14,1000:3,10000:0.5,70000:0.2});
  const memo=()=>f.p(0.75)?undefined:f.pick([0,1,3,9,40]);
  const stated=()=>f.p(P.statedp??0.3)?f.p(0.85)?['r',f.pick([0,0,-1,-10,-100,-9900,-10000,-10001,-10050,-10051,49,50,51,20,500,-499,-500,-501,-3000,4000,4001])]:f.pick([['a',0],['a',2000000000],['a',1000000+t]]):[];
  const cr=()=>{const c=stated();return c.length?c:now;};
  const exp=()=>f.p(0.7)?[]:f.pick([['r',f.pick([0,1,200,500,3000,90000])],['r',-1],['a',0],['a',2000000000]]);
  const tok=()=>f.p(0.06)?f.pick([0,nxt,nxt+3]):own.size?P.few&&f.p(0.6)?[...own.keys()][0]:f.pick([...own.keys()]):1;
  const holder=id=>own.get(id)||A(f.pick(PEOPLE));
  const n=()=>f.p(P.batch??0.15)?2+f.int(f.p(0.15)?8:3):f.p(0.03)?0:1;
  const list=g=>Array.from({length:n()},g);
  const mine=by=>[...own].filter(e=>e[1].p===by).map(e=>e[0]);
  const meta=()=>f.p(0.02)?'m8':f.pick(['m0','m1','m2','m3','m4','m5','m6','m7','m9','m10','m11']);
  const move=(id,to)=>{if(own.has(id)&&to.p!=='anon')own.set(id,A(to.p,Math.max(0,to.s)));};
  const align=(d,m)=>d+((m-(t+d))%10+10)%10;let xh=0;
  const AGAIN=['grant','revoke','ucfg','umeta','burn','appr','apprc','rev','revc','xfer','xfrom','cu','fu','upgrade'];const push=x=>{if(P.ask&&['xfer','xfrom','appr','rev','apprc','revc'].includes(x.op)&&f.p(P.ask))ops.push(q.consent(x,{by:f.p(0.5)?x.by:f.pick([...PEOPLE,'anon','x']),m:x.items.length&&f.p(0.2)?f.pick([...METHS,...METHS,'mint','burn_nft','','ICRC7_TRANSFER','icrc7_transfer ','icrc7_tokens']):undefined,junk:f.p(0.1)?f.pick(['cut','none','text','raw']):'',lang:f.pick(['en','de','',"x".repeat(300)]),off:f.pick([undefined,60,-720]),dev:f.int(2)}));
    if(P.x&&(x.op==='xinst'||x.op==='xup'))x.dt=align(x.dt,7);if(P.x&&x.op==='upgrade')x.dt=align(x.dt,0);ops.push(x);t+=x.dt;if(!P.x&&!x.hold&&!x.f&&AGAIN.includes(x.op)&&f.p(0.06)){const y={...x,dt:dt()};ops.push(y);t+=y.dt;}if(['xfer','xfrom','appr','rev','apprc','revc'].includes(x.op)&&x.items.length===1)seen.push([x,t]);};
  push(mint(Array.from({length:1+f.int(4)},()=>{const to=A(f.pick(PEOPLE),f.pick([0,0,1]));own.set(nxt++,to);return req(to,{meta:meta()});}).filter((x,i,l)=>!cfg.supply_cap||i<cfg.supply_cap)));
  if(P.x)push(xinst());
  while(ops.length<len){
    const d={dt:dt()};
    if(P.repeat&&seen.length&&f.p(P.repeat)){ // the same request again, with the same stated time
      const[x,at]=f.pick(seen.slice(-4));const it=x.items[0];const c=it.cr.length?(it.cr[0]==='r'?['a',1000000+at+it.cr[1]]:it.cr):['a',1000000+at];
      const y={...x,dt:f.pick([0,10,30,60]),items:[{...it,cr:c}]};if(f.p(0.3))y.items[0].memo=[f.int(3)];push(y);if(x.op==='xfer')move(it.id,it.to);continue;}
    if(held&&f.p(0.3)){push(end(f.pick([0,0,100,3000])));held();held=null;continue;}
    switch(own.size<3&&f.p(0.3)&&!(P.cap)?"mint":f.w(w)){
      case'mint':{const l=list(()=>req(acc(),{memo:memo(),meta:meta()}));const by=f.p(0.85)?'admin':f.pick(PEOPLE);if(by==='admin'&&d.dt>=130&&l.length<5)for(const r of l)own.set(nxt++,A(r.to.p,Math.max(0,r.to.s)));push(mint(l,{by,...d}));break;}
      case'burn':{const id=tok();const by=f.p(0.8)?holder(id).p:f.pick([...PEOPLE,'admin','anon']);push(burn(by,id,d));if(holder(id).p===by)own.delete(id);break;}
      case'xfer':{const first=tok(),by=f.p(0.03)?'anon':f.p(0.85)?holder(first).p:f.pick(PEOPLE);let k=0;
        const l=list(()=>{const m=mine(by);const id=k++===0?first:f.p(0.8)&&m.length?f.pick(m):tok();const to=f.p(0.05)?holder(id):acc();if(holder(id).p===by)move(id,to);return xi(id,to,{memo:memo(),cr:stated(),fs:f.p(0.1)?f.pick(SUBS):0});});push(xfer(by,l,d));break;}
      case'xfrom':{let by=f.pick(PEOPLE),ss=f.pick([0,0,0,1,2]);let ap=null;if(apps.length&&f.p(0.75)){ap=f.pick(apps.slice(-12));by=ap.sp.p;ss=ap.sp.s;}
        const l=list(()=>{const pool=ap?(ap.id?[ap.id]:[...own].filter(e=>same(e[1],ap.from)).map(e=>e[0])):[];const id=pool.length&&f.p(0.9)?f.pick(pool):f.p(0.2)&&mine(by).length?f.pick(mine(by)):tok();
          const from=f.p(0.9)?holder(id):acc();const to=f.p(0.05)?from:acc();if(ap&&f.p(0.7))move(id,to);return fi(id,from,to,{ss:f.p(0.06)?f.pick(SUBS):ss,memo:memo(),cr:stated()});});push(xfrom(by,l,d));break;}
      case'appr':{const first=tok(),by=f.p(0.9)?holder(first).p:f.pick(PEOPLE);let k=0;
        const l=list(()=>{const m=mine(by);const id=k++===0?first:f.p(0.8)&&m.length?f.pick(m):tok();const sp=acc();const fs=f.p(0.9)?holder(id).s:f.pick(SUBS);apps.push({sp,id,from:holder(id)});return ai(id,sp,{fs,exp:exp(),memo:memo(),cr:cr()});});push(appr(by,l,d));break;}
      case'apprc':{const by=f.pick(PEOPLE);const l=list(()=>{const sp=acc(),fs=f.pick(SUBS);apps.push({sp,from:A(by,Math.max(0,fs))});return ci(sp,{fs,exp:exp(),memo:memo(),cr:cr()});});push(apprc(by,l,d));break;}
      case'rev':{const ap=apps.length&&f.p(0.7)?f.pick(apps.slice(-10).filter(a=>a.id).concat([null])):null;const first=ap?ap.id:tok(),by=f.p(0.9)?holder(first).p:f.pick(PEOPLE);let k=0;
        const l=list(()=>{const m=mine(by);const id=k++===0?first:f.p(0.8)&&m.length?f.pick(m):tok();const sp=f.p(0.4)?undefined:ap&&k===1?ap.sp:acc();return ri(id,sp,{fs:f.p(0.9)?holder(id).s:f.pick(SUBS),memo:memo(),cr:stated()});});push(rev(by,l,d));break;}
      case'revc':{const ap=apps.length&&f.p(0.75)?f.pick(apps.slice(-10).filter(a=>!a.id).concat([null])):null;const by=ap?ap.from.p:f.pick(PEOPLE);let k=0;
        const l=list(()=>rci(f.p(0.4)?undefined:ap&&k++===0?ap.sp:acc(),{fs:ap&&f.p(0.9)?ap.from.s:f.pick(SUBS),memo:memo(),cr:stated()}));push(revc(by,l,d));break;}
      case'umeta':push(umeta(tok(),meta(),{by:f.p(0.85)?'admin':f.pick(PEOPLE),...d}));break;
      case'ucfg':{const C={name:['N2','N3'],symbol:['S2'],description:['d1','d2'],logo:['https://y.org'],supply_cap:[0,3,8,50],max_query_batch_size:[0,2,6,1900000000],max_update_batch_size:[0,1,2,5,50,2000000000],max_take_value:[0,1,3,50,2000000000],default_take_value:[0,1,3,9,2000000000],max_memo_size:[0,3,50,2000000000],atomic_batch_transfers:[0,1],tx_window:[0,500,3000,20000,1000000000,900000000],permitted_drift:[0,20,4000],max_canister_storage_threshold:[3]};
        const ks=Object.keys(C).filter(k=>f.p(0.15));push(ucfg(Object.fromEntries(ks.map(k=>[k,f.pick(C[k])])),{by:f.p(0.9)?'admin':f.pick(PEOPLE),...d}));break;}
      case'grant':case'revoke':{const g=f.p(0.6)?grant:revoke;let who=f.p(0.9)?f.pick(PEOPLE):f.pick(['admin','anon']),pm=f.pick(PS);if(granted.length&&f.p(g===revoke?0.6:0.15))[who,pm]=f.pick(granted.slice(-6));if(g===grant)granted.push([who,pm]);push(g(f.p(0.8)?'admin':f.pick(PEOPLE),who,who==='admin'&&g===revoke&&pm==='ManageAuthorities'&&f.p(0.9)?'Minting':pm,d));break;}
      case'wait':push(P.arch&&f.p(0.3)?waitf(f.pick([600000,1200000]),[f.pick(['insert_blocks','insert_blocks','create_canister']),f.pick([1,2,3,4,99])]):wait(f.pick(P.arch?[5,3000,119000,120000,479000,600000,1300000]:[5,61,500,3000,15000])));break;
      case'upgrade':push(upgrade(d));if(held){held();held=null;}break;
      case'iu':{const path=f.p(0.4)?f.pick(PATH.slice(0,5)):f.pick(PATH),x=how('iu');const doc=Array.from({length:1+f.int(6)},()=>f.int(256));const csz=f.p(0.3)?undefined:1+f.int(4);const o={...x,csz};if(f.p(0.03))o.csz=f.pick([0,9000000]);if(f.p(0.03))o.size=f.pick([doc.length+1,doc.length-1,2000000000].filter(v=>v>0));
        push(iu(path,doc,o));if(!ups.has(keyOf(path))&&!badPath(path))eff(x,()=>ups.set(keyOf(path),{path,doc,size:o.size??doc.length,csz:o.csz||doc.length,done:new Set()}));break;}
      case'sc':case'fu':case'cu':{const kind=ops.length&&f.p(0)?'':null;const l=[...ups.values()].filter(u=>!u.fin||f.p(0.05));if(!l.length&&f.p(0.9))continue;const u=l.length&&f.p(0.93)?f.pick(l):null;const path=u&&f.p(0.96)?u.path:f.pick(PATH);
        const nn=u?Math.ceil(u.size/u.csz):1;const miss=u?Array.from({length:Math.min(nn,9)},(_,i)=>i).filter(i=>!u.done.has(i)):[];
        const c=l.length===0?'sc':f.p(0.07)?'cu':miss.length&&f.p(0.93)?'sc':'fu';const x=how(c);
        if(c==='sc'){const i=miss.length&&f.p(0.93)?f.pick(miss):f.int(4);let data=u?u.doc.slice(i*u.csz,(i+1)*u.csz):[1];if(f.p(0.04))data=[...data,f.int(256)];if(f.p(0.03))data=data.map(v=>v^1);if(f.p(0.02))data=[];push(sc(path,i,data,x));if(u&&path===u.path)eff(x,()=>u.done.add(i));}
        else if(c==='fu'){push(fu(path,x));if(u&&path===u.path)eff(x,()=>{if(miss.length)ups.delete(keyOf(path));else u.fin=1;});}
        else{push(cu(path,x));if(u)eff(x,()=>ups.delete(keyOf(u.path)));}
        break;}
      case'xround':{const d=f.pick([60000,60000,60000,120000,600000]),fl=f.p(0.25)?[f.pick(['icrc3_get_blocks','icrc3_get_blocks','archive']),f.pick([1,1,2,99])]:undefined;
        if(xh<3&&f.p(0.3)){push(waith(d,f.pick(['req','rep'])));xh++;}else push(fl?waitf(d,fl):wait(d));break;}
      case'xend':{if(!xh&&f.p(0.9))continue;push(xend(1+f.int(Math.max(1,xh)),f.p(0.15)?{f:[f.pick(['icrc3_get_blocks','archive']),1]}:{}));xh=Math.max(0,xh-1);break;}
      case'xup':if(f.p(0.2)){push(q.xupbad());break;}push(xup(f.pick([0,100,30000])));xh=0;break;
      case'xq':{const nb=ops.length,F=()=>f.w({a:5,t:4,k:4})==='a'?fa(f.pick([...PEOPLE,'anon','x']),f.pick(SUBS)):f.p(0.5)?ty(f.pick(['7mint','7burn','7xfer','7update_token','37approve','37approve_coll','37xfer','37revoke','37revoke_coll','other'])):tk(f.pick([0,1,tok(),tok(),2000000000]));
        const o={by:Array.from({length:+f.w({0:3,1:4,2:4,3:1})},F),desc:f.pick([0,0,1,1,2])};if(f.p(0.08))o.f=[f.pick(['icrc3_get_blocks','archive']),1];else if(xh<3&&f.p(0.1)){o.hold=f.pick(['req','rep']);xh++;}
        push(xq(f.pick([0,0,0,1,3,f.int(nb+2)]),f.pick([0,1,2,5,10,50,100,150]),o));break;}
      case'days':{const m=f.pick([DAY,DAY/2,DAY-3000,3600000]);for(const[k,u]of ups)if(!u.fin)ups.delete(k);push(f.p(0.2)&&!held?waitf(m,['cancel_upload',99]):wait(m));break;}
      case'upq':{const p=ups.size&&f.p(0.8)?f.pick([...ups.values()]).path:f.pick(PATH);const by=f.p(0.85)?'admin':f.pick(PEOPLE);push(f.pick([()=>q.fetch(p),()=>q.fetch(p),()=>q.ust(p,by),()=>q.uploads(f.pick([undefined,0,1,2,9]),f.pick([undefined,0,1,2,50]),by),()=>q.subs(by)])());break;}
      case'inst':{if(f.p(0.1)){push(q.upbad());break;}if(f.p(0.1)){push(q.xinst(f.pick(['init','upgrade']),{by:f.pick(['admin','a'])}));break;}const c={},W=2000000000,L=1000000000;
        for(const[k,l]of Object.entries({name:['','N9'],symbol:['','S9'],description:['','about'],logo:['https://y.org/z','','logo','/logo.png','data:,x'],supply_cap:[0,1,7,W],max_query_batch_size:[0,1,50,W],max_update_batch_size:[0,2,50,W],max_take_value:[0,3,W],default_take_value:[0,4,W],max_memo_size:[0,5,W],atomic_batch_transfers:[0,1],tx_window:[0,1,7000,L],permitted_drift:[0,1,90,L],max_canister_storage_threshold:[0,1,9,W],maxappr:[0,1,6,W],maxrev:[0,1,7,W]}))if(f.p(0.4)&&!(f.p(0.7)&&(l[0]===0&&/appr|rev/.test(k))))c[k]=f.pick(l);
        if(f.p(0.7)&&c.maxappr===0)delete c.maxappr;if(f.p(0.7)&&c.maxrev===0)delete c.maxrev;if(f.p(0.6)&&['','logo','/logo.png'].includes(c.logo))delete c.logo;
        if(f.p(0.7)){c.perm={};for(const p of['a','b','c','admin','y'])if(f.p(0.4))c.perm[p]=[...PS,'ReadUploads','UpdateUploads'].filter(()=>f.p(0.4));}
        push(q.inst(c,{by:f.pick(['admin','admin','a','e']),test:f.pick([0,0,1]),kind:f.p(0.07)?'upgrade':'init'}));break;}
      case'query':{if(P.arch&&f.p(0.7)){const R=()=>[f.pick([0,0,f.int(ops.length+3),f.int(40)]),f.pick([0,1,2,5,20,100])];push(f.p(0.2)?q.archs():q.blocks(...Array.from({length:f.pick([1,1,2,3])},R)));break;}const T=f.pick([undefined,undefined,0,1,2,3,7,100,101]),V=f.pick([undefined,0,1,nxt-1,nxt>>1,nxt+4]);const sp=f.p(0.4)?null:acc();
        push(f.pick([()=>q.tokens(V,T),()=>q.tokens_of(own.size&&f.p(0.7)?f.pick([...own.values()]):acc(),V,T),()=>q.owner(list(tok)),()=>q.meta(list(tok)),()=>q.balance(list(acc)),()=>q.approved(list(()=>{const ap=apps.length&&f.p(0.8)?f.pick(apps):{sp:acc()};return[ap.sp,ap.id||tok()];})),()=>q.tapp(tok(),sp,T),()=>q.capp(own.size&&f.p(0.7)?f.pick([...own.values()]):acc(),sp,T),()=>q.perms(f.p(0.7)?'admin':f.pick(PEOPLE),f.pick([...PEOPLE,'admin','x'])),()=>q.has(f.p(0.7)?'admin':f.pick(PEOPLE),f.pick([...PEOPLE,'admin']),f.pick(PS))])());break;}
    }}
  return{init:init(o),ops};}
export const histories=(id,n,len,profiles)=>(tier,seed)=>{const k=tier==='quick'?1:10,l=[];const N=n*k;for(let i=0;i<N;i++)l.push(history(hash(id+':'+seed+':'+i),tier==='quick'?len:len*2,profiles[i%profiles.length]));return l;};
