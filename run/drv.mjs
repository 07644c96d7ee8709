// Executes operations of the specification on the real canister and projects its state.
import {World} from '../emu/ic.mjs';import {Nft,Index,enc,sha256hex,WASM,initArg,upgradeArg,indexInitArg,indexUpgradeArg} from '../emu/nft.mjs';import {decode,encode,T} from '../emu/candid.mjs';import {certOk} from '../emu/httpcert.mjs';
import {RANK,PRIN,pname,accIn,accOut,akey,Clock,memoIn,memoOut,metaIn,metaOut,subIn,keyOf,FAR,T0,numIn,numOut,longIn,longOut} from './abs.mjs';
export const CFG_MS=['tx_window','permitted_drift'];
export const GETTERS={symbol:'icrc7_symbol',name:'icrc7_name',description:'icrc7_description',logo:'icrc7_logo',supply_cap:'icrc7_supply_cap',max_query_batch_size:'icrc7_max_query_batch_size',max_update_batch_size:'icrc7_max_update_batch_size',default_take_value:'icrc7_default_take_value',max_take_value:'icrc7_max_take_value',max_memo_size:'icrc7_max_memo_size',atomic_batch_transfers:'icrc7_atomic_batch_transfers',tx_window:'icrc7_tx_window',permitted_drift:'icrc7_permitted_drift'};
const NUM=['supply_cap','max_query_batch_size','max_update_batch_size','max_take_value','default_take_value','max_memo_size','max_canister_storage_threshold'];
export const cfgIn=(k,v)=>k==='atomic_batch_transfers'?v===1:CFG_MS.includes(k)?longIn(v):NUM.includes(k)?numIn(v):v;
export const cfgOut=(k,v)=>k==='atomic_batch_transfers'?(v?1:0):CFG_MS.includes(k)?longOut(v):typeof v==='bigint'?numOut(v):v;
const opt=o=>o===undefined||o===null?[]:Array.isArray(o)?o:[o];
// tx account texts: <owner>[-checksum.subaccount]
export function ptext(t){const i=t.indexOf('.');return pname(i<0?t:t.slice(0,t.lastIndexOf('-',i)));}
const METHOD={xfer:'icrc7_transfer',xfrom:'icrc37_transfer_from',appr:'icrc37_approve_tokens',apprc:'icrc37_approve_collection',rev:'icrc37_revoke_token_approvals',revc:'icrc37_revoke_collection_approvals'};
const V=v=>Object.values(v)[0];
const U64=(1n<<64n)-1n;
export const BTYPES=['7mint','7burn','7xfer','7update_token','37approve','37approve_coll','37xfer','37revoke','37revoke_coll'];
const fkey=f=>f.t==='acc'?f.p:f.t==='type'?f.v:'#'+f.id;
const xfilters=(u,v)=>{const m=new Map();for(const f of[...u.prins.map(p=>({t:'acc',p,s:0})),...BTYPES.map(t=>({t:'type',v:t})),...u.ids(v).map(id=>({t:'tok',id})),...v.x.keys.map(k=>k[0])])m.set(fkey(f),f);return[...m.values()];};
const enc1=k=>k.split('/').map(encodeURIComponent).join('/');
export function initArgs(init,test=false){
  const o={test_mode:test,permissions:{}};
  for(const[p,l]of Object.entries(init.perm))o.permissions[PRIN[p]]=l;
  for(const[k,v]of Object.entries(init.cfg))if(v.length)o[k]=cfgIn(k,v[0]);
  o.max_approvals=init.maxappr.length?numIn(init.maxappr[0]):undefined;o.max_revoke=init.maxrev.length?numIn(init.maxrev[0]):undefined;
  return o;}
// the answer to an installation, in a fixed order
export function instCanon(v){const perm=Object.fromEntries([...v.perm].map(([p,l])=>[p,[...l].sort().join(' ')]).sort());
  return[Object.keys(GETTERS).map(k=>k+'='+JSON.stringify(v.cfg[k])).join(' '),String(v.maxappr),String(v.maxrev),JSON.stringify(perm),v.supply,v.len,v.uploads,[...v.types].sort().join(' '),[...v.standards].sort().join(' ')];}
export class Sut{
  constructor(init){
    const w=this.w=new World();this.clock=new Clock(w.time);this.init=init;
    this.n=Nft.install(w,initArgs(init,!!init.test),PRIN.admin);this.blocks=[];this.tips=[];this.now=T0;this.held=null;this.x=null;this.xheld=[];this.xtag=0;}
  snap(){return{w:this.w.snap(),nb:this.blocks.length,now:this.now,held:this.held,x:this.x,xheld:[...this.xheld]};}
  restore(s){this.w.restore(s.w);this.blocks.length=s.nb;this.tips.length=Math.min(this.tips.length,s.nb+1);this.now=s.now;this.held=s.held;this.x=s.x;this.xheld=[...s.xheld];}
  upd(m,by,...a){return this.n.upd(m,PRIN[by],...a);}
  // response normalisation
  one(x,okf=y=>Number(y)){if(x===null||x===undefined)return{k:'none',c:'',v:[]};const k=Object.keys(x)[0];
    if(k==='Ok')return{k:'ok',c:'',v:x.Ok===null||x.Ok===undefined?[]:okf(x.Ok)};
    if(k==='Err'){const e=x.Err;if(e===null||typeof e!=='object')return{k:'err',c:String(e),v:[]};return{k:'err',c:Object.keys(e)[0],v:[],m:V(e)};}
    return{k:'?',c:JSON.stringify(x,(a,b)=>typeof b==='bigint'?String(b):b).slice(0,80),v:[]};}
  resp(r,shape,okf){
    if(r.hang)return{k:'hang',c:'',v:[]};if(r.rej)return{k:'rej',c:'',v:[],m:r.msg};
    const x=r.ok[0];
    if(shape==='one')return this.one(x,okf);
    if(shape==='list'){return{k:'ok',c:'',v:x.map(y=>this.one(y.length===undefined?y:y[0]))};}
    if(shape==='rlist'){if('Err'in x)return this.one(x);return{k:'ok',c:'',v:x.Ok.map(y=>this.one(y.length===undefined?y:y[0]))};}}
  exec(o){
    if(o.op==='during')return this.during(o);
    const f=o.f&&o.f.length;
    try{if(o.op==='wait'&&/^gc/.test(o.hold||''))this.gchold(o.hold);else if(o.op==='wait'&&(f||o.hold))this.faults(f?o.f[0]:{n:0},o.hold);if(o.dt)this.w.tick(BigInt(o.dt)*1000000n);this.now+=o.dt;if((f||o.hold&&o.op==='xq')&&o.op!=='wait')this.faults(f?o.f[0]:{n:0},o.op==='xq'?o.hold:'');return this.exec1(o);}finally{this.w.policy=null;}}
  // an operation while the request of an archiving round is on its way
  during(o){const w=this.w;w.policy=m=>m.method==='insert_blocks'?{hold:1}:null;w.tick(BigInt(o.dt)*1000000n);w.policy=null;this.now+=o.dt;
    if(!w.pending.some(m=>m.held))throw new Error('no archiving request to hold');const a=this.exec1(o.sub);for(const m of w.pending)m.held=false;w.run();return a;}
  // the first f.n calls of a method fail; the index's first request to the ledger is held
  faults(f,hold){let n=f.n;const far=m=>m.method==='icrc3_get_blocks'&&m.to!==this.n.id?'archive':m.method;
    this.w.policy=m=>{if(hold&&this.x&&m.from===this.x.id&&far(m)==='icrc3_get_blocks'){const tag='x'+(++this.xtag);this.xheld.push({tag});const h=hold;hold='';return h==='req'?{hold:tag}:{holdReply:tag};}
      if(f.m==='full'||f.m==='fits')return m.method==='get_storage_size'&&n>0?(n--,{ok:encode([T.nat],[(500n<<30n)-BigInt(this.asked)+(f.m==='full'?1n:0n)])}):null;
      return far(m)===f.m&&n>0?(n--,{rej:4,msg:'injected'}):null;};}
  // ---- the index
  xargs(o){const big=v=>o.filters.length&&v>=FAR?U64:BigInt(v);
    return{start:big(o.start),length:big(o.len),sort_by:o.desc===1?[{Descending:null}]:o.desc===2?[]:[{Ascending:null}],filters:o.filters.map(f=>f.t==='acc'?{Account:accIn({p:f.p,s:f.s})}:f.t==='type'?{BlockType:f.v}:{TokenId:f.id>=FAR?1n<<70n:BigInt(f.id)})};}
  // ids of the blocks of an answer, if they are the ledger's blocks
  xids(bs){const l=[];for(const b of bs){const i=Number(b.id);if(!this.blocks[i])return'block '+i+' made up';if(this.block(b.block).raw!==this.blocks[i].raw)return'block '+i+' differs';l.push(i);}return l;}
  xresp(r){if(!r||r.hang)return{k:'hang',c:'',v:[]};if(r.rej)return{k:'rej',c:'',v:[],m:r.msg};const x=(r.ok instanceof Uint8Array?decode(r.ok):r.ok)[0],l=this.xids(x.blocks);return typeof l==='string'?{k:'?',c:l,v:[]}:{k:'ok',c:'',v:[Number(x.total),l]};}
  xrelease(h){for(const m of this.w.pending)if(m.held===h.tag)m.held=false;this.w.run();}
  xquery(o){const w=this.w,k=this.xheld.length,rid=w.submit(this.x.id,'get_blocks',enc('get_blocks',this.xargs(o)),PRIN.x);w.run();
    if(this.xheld.length>k){this.xheld[k]={...this.xheld[k],rid};return{k:'held',c:'',v:[]};}return this.xresp(w.take(rid));}
  xend(o){const h=this.xheld[o.i-1];if(!h)return{k:'ok',c:'',v:[]};this.xheld=this.xheld.filter(y=>y!==h);this.xrelease(h);return h.rid?this.xresp(this.w.take(h.rid)):{k:'ok',c:'',v:[]};}
  xup(){const r=this.x.upgrade(PRIN.admin);if(r.rej)return{k:'rej',c:'',v:[],m:r.msg};for(const h of this.xheld){this.xrelease(h);if(h.rid)this.w.take(h.rid);}this.xheld=[];this.w.run();return{k:'ok',c:'',v:[]};}
  // what the index answers to each filter, leaving no trace
  xobserve(K,u,v){const st=this.x.q('status',PRIN.x);K['x:n']=st.rej?'rej '+st.msg:String(st.ok[0].last_block_id);const li=this.x.q('ledger_id',PRIN.x);K['x:ledger']=li.rej?'rej '+li.msg:li.ok[0].ledger_id===this.n.id?'ok':'another';
    if(v.x.n>60)return;const w=this.w,s=w.snap(),lim=this.w.policy;w.policy=null;
    for(const f of xfilters(u,v)){const r=this.xresp(w.update(this.x.id,'get_blocks',enc('get_blocks',this.xargs({filters:[f],start:0,len:100,desc:0})),PRIN.x));K['x:'+fkey(f)]=r.k==='ok'?r.v[1].join(' '):r.k+' '+r.c+(r.m||'');}
    w.restore(s);w.policy=lim;}
  // a call that may stop at a request to another canister
  upload(o,m,arg){const w=this.w,me=this.n.id;
    if(!o.hold)return this.upd(m,o.by,arg);
    const rid=w.submit(me,m,enc(m,arg),PRIN[o.by]);
    for(let k=0;k<1000;k++){
      const h=w.pending.find(x=>!x.held&&(o.hold==='rep'?x.type==='response'&&x.to===me&&x.method===m:x.type==='request'&&x.from===me&&(o.hold==='first'||x.method===m)));
      if(h){h.held=true;this.held=rid;w.run();return{held:1};}
      const i=w.pending.findIndex(x=>!x.held);if(i<0)break;w.deliver(i);}
    const r=w.take(rid);return!r?{hang:1}:r.ok?{ok:decode(r.ok)}:r;}
  // the first cancellation of the garbage collection is held
  gchold(how){let h=how;this.w.policy=m=>{if(h&&m.method==='cancel_upload'&&m.from===this.n.id){h='';return how==='gcreq'?{hold:'gc'}:{holdReply:'gc'};}return null;};}
  gcend(){for(const x of this.w.pending)if(x.held==='gc')x.held=false;this.w.run();}
  release(){for(const x of this.w.pending)if(x.held===true)x.held=false;this.w.run();const r=this.w.take(this.held);this.held=null;return!r?{hang:1}:r.ok?{ok:decode(r.ok)}:r;}
  http(key,more=''){const a=enc('http_request',{method:'GET',url:enc1(key)+more,headers:more?[{_0:'host',_1:'x.icp0.io'}]:[],body:Buffer.alloc(0),certificate_version:[2]});const r=this.w.query(this.n.id,'http_request',a,PRIN.x);return r.rej?r:decode(r.ok)[0];}
  // '-' for no redirect, otherwise [storage canister, problem]
  redirect(key,more=''){if(['/logs','/traces','/metrics'].includes(key))return'-';const r=this.http(key,more);if(r.rej)return'-';if(r.status_code===404)return'-';if(r.status_code<300||r.status_code>=400)return['','status '+r.status_code];
    const loc=r.headers.map(h=>[h._0,h._1]).filter(h=>h[0].toLowerCase()==='location');if(loc.length!==1)return['','no location'];
    const m=/^https:\/\/([a-z0-9-]+)\.raw\.icp0\.io(\/.*)$/.exec(loc[0][1]);if(!m||m[2]!==key)return['','leads to '+loc[0][1]];
    return[m[1],certOk(r,this.w.c(this.n.id).cert,enc1(key)),new URL(loc[0][1]).pathname];}
  fetch(key,more=''){const x=this.redirect(key,more);if(x==='-')return{k:'err',c:'none',v:[]};if(x[1])return{k:'err',c:x[1],v:[]};
    const w=this.w;if(!w.c(x[0]))return{k:'err',c:'no canister '+x[0],v:[]};
    const a=enc('http_request',{method:'GET',url:x[2],headers:[],body:Buffer.alloc(0),certificate_version:[2]});
    w.update(x[0],'http_request_update',a,PRIN.x);const r=w.query(x[0],'http_request',a,PRIN.x);if(r.rej)return{k:'err',c:'storage: '+r.msg.slice(0,80),v:[]};
    const y=decode(r.ok)[0];return y.status_code===200?{k:'ok',c:'',v:[...y.body]}:{k:'err',c:'storage status '+y.status_code,v:[]};}
  // arguments of the calls that users sign
  args(o){
    const at=t=>this.clock.at(this.now,t),N=numIn,ain=(it)=>({spender:accIn(it.sp),from_subaccount:subIn(it.fs),expires_at:at(it.exp),memo:memoIn(it.memo),created_at_time:at(it.cr)[0]});
    const so=sp=>sp.length?[accIn(sp[0])]:[];
    switch(o.op){
      case'xfer':return o.items.map(i=>({to:accIn(i.to),token_id:N(i.id),memo:memoIn(i.memo),from_subaccount:subIn(i.fs),created_at_time:at(i.cr)}));
      case'xfrom':return o.items.map(i=>({spender_subaccount:subIn(i.ss),from:accIn(i.from),to:accIn(i.to),token_id:N(i.id),memo:memoIn(i.memo),created_at_time:at(i.cr)}));
      case'appr':return o.items.map(i=>({token_id:N(i.id),approval_info:ain(i)}));
      case'apprc':return o.items.map(i=>({approval_info:ain(i)}));
      case'rev':return o.items.map(i=>({spender:so(i.sp),from_subaccount:subIn(i.fs),token_id:N(i.id),memo:memoIn(i.memo),created_at_time:at(i.cr)}));
      case'revc':return o.items.map(i=>({spender:so(i.sp),from_subaccount:subIn(i.fs),memo:memoIn(i.memo),created_at_time:at(i.cr)}));
    }}
  consent(o){
    const a=enc(METHOD[o.of.op],this.args(o.of)),arg=o.junk===''?a:o.junk==='cut'?a.subarray(0,a.length-1):o.junk==='none'?Buffer.alloc(0):o.junk==='text'?encode([T.text],['icrc7_transfer']):Buffer.from('not candid at all');
    const r=this.n.q('icrc21_canister_call_consent_message',PRIN[o.by],{method:o.m,arg,user_preferences:{metadata:{language:o.lang,utc_offset_minutes:o.off},device_spec:o.dev?[{GenericDisplay:null}]:[]}});
    if(r.rej)return{k:'rej',c:'',v:[],m:r.msg};
    return this.one(r.ok[0],x=>{let m=Object.values(x.consent_message)[0];const ms=Object.values(METHOD).filter(y=>m.includes(y));for(const y of ms)m=m.split(y).join('');
      const who=Object.keys(RANK).filter(y=>m.includes(PRIN[y])).sort((y,z)=>RANK[y]-RANK[z]);for(const y of who)m=m.split(PRIN[y]).join('');
      const ns=[...m.matchAll(/\b[0-9]+\b/g)].map(y=>Number(y[0]));
      return[ms.join(),ns.length?Math.max(1,...ns):1,who,x.metadata.language,x.metadata.utc_offset_minutes];});}
  // another ledger, installed beside this one and taken away again
  inst(o){const w=this.w,s=w.snap();try{
    const id=w.create([PRIN[o.by]]),r=w.install(id,WASM('core_nft'),o.kind==='init'?initArg(initArgs(o.c,!!o.test)):upgradeArg(),PRIN[o.by]);if(r.rej)return{k:'rej',c:'',v:[],m:r.msg};w.run();
    const n=new Nft(w,id),get=(m,...a)=>{const x=n.q(m,PRIN.x,...a);if(x.rej)throw new Error(m+' '+x.msg);return x.ok[0];};
    const all=o.test?[o.by]:Object.entries(o.c.perm).filter(e=>e[1].includes('ManageAuthorities')).map(e=>e[0]),rd=o.test?o.by:Object.keys(o.c.perm).find(p=>o.c.perm[p].includes('ReadUploads'));
    const v={cfg:Object.fromEntries(Object.entries(GETTERS).map(([k,m])=>[k,opt(get(m)).map(x=>cfgOut(k,x))])),maxappr:opt(get('icrc37_max_approvals_per_token_or_collection')).map(numOut),maxrev:opt(get('icrc37_max_revoke_approvals')).map(numOut),
      supply:Number(get('icrc7_total_supply')),len:Number(get('icrc3_get_blocks',[{start:0n,length:10n}]).log_length),uploads:0,types:get('icrc3_supported_block_types').map(x=>x.block_type),standards:get('icrc10_supported_standards').map(x=>x.name),perm:[]};
    if(rd){const x=n.q('get_all_uploads',PRIN[rd],[],[]);v.uploads=x.rej?'rej':x.ok[0].Ok.length;}
    if(all.length)for(const p of Object.keys(PRIN)){const x=n.q('get_user_permissions',PRIN[all[0]],{principal:PRIN[p]});if(x.rej)throw new Error(x.msg);const y=x.ok[0];if('Ok'in y)v.perm.push([p,[...new Set((y.Ok.permissions||y.Ok).map(z=>Object.keys(z)[0]))]]);}
    return{k:'ok',c:'',v:instCanon(v)};}finally{w.restore(s);}}
  xinst2(o){const w=this.w,s=w.snap();try{
    const id=w.create([PRIN[o.by]]),r=w.install(id,WASM('index_icrc7'),o.kind==='init'?indexInitArg(this.n.id,!!o.test):indexUpgradeArg(),PRIN[o.by]);if(r.rej)return{k:'rej',c:'',v:[],m:r.msg};w.run();
    const x=new Index(w,id),st=x.q('status',PRIN.x),li=x.q('ledger_id',PRIN.x);
    return{k:'ok',c:'',v:{n:st.rej?'rej':Number(st.ok[0].last_block_id),ledger:li.rej?'rej':li.ok[0].ledger_id===this.n.id?1:0}};}finally{w.restore(s);}}
  exec1(o){
    const N=numIn;
    const take=x=>x.map(N);
    switch(o.op){
      case'mint':return this.resp(this.upd('mint',o.by,{mint_requests:o.reqs.map(q=>({token_owner:accIn(q.to),memo:memoIn(q.memo),metadata:metaIn(q.meta)}))}),'one');
      case'burn':return this.resp(this.upd('burn_nft',o.by,N(o.id)),'one');
      case'xfer':return this.resp(this.upd('icrc7_transfer',o.by,this.args(o)),'list');
      case'xfrom':case'appr':case'apprc':case'rev':case'revc':return this.resp(this.upd(METHOD[o.op],o.by,this.args(o)),'rlist');
      case'umeta':return this.resp(this.upd('update_nft_metadata',o.by,{token_id:N(o.id),metadata:metaIn(o.meta)}),'one');
      case'ucfg':{const a={};for(const[k,v]of o.f)a[k]=[cfgIn(k,v)];return this.resp(this.upd('update_collection_metadata',o.by,a),'one');}
      case'grant':case'revoke':return this.resp(this.upd(o.op+'_permission',o.by,{principal:PRIN[o.who],permission:{[o.perm]:null}}),'one');
      case'iu':this.asked=o.size;return this.respU(this.upload(o,'init_upload',{file_path:o.path,file_hash:sha256hex(Buffer.from(o.doc)),file_size:o.size===999999999?1n<<31n:o.size===1000000001?(1n<<31n)+1n:o.size>=1000000000?3n<<30n:N(o.size),chunk_size:o.csz.map(N)}));
      case'sc':return this.respU(this.upload(o,'store_chunk',{file_path:o.path,chunk_id:N(o.i),chunk_data:Buffer.from(o.data)}));
      case'fu':return this.respU(this.upload(o,'finalize_upload',{file_path:o.path}),x=>x.url===`https://${this.n.id}.raw.icp0.io${o.key}`?'self':'url '+x.url);
      case'cu':return this.respU(this.upload(o,'cancel_upload',{file_path:o.path}));
      case'gcend':this.gcend();return{k:'ok',c:'',v:[]};
      case'end':return this.held?this.respU(this.release(),x=>x.url!==undefined?/^https:\/\/([^.]*)\.raw\.icp0\.io\//.exec(x.url)?.[1]===this.n.id?'self':'url '+x.url:[]):{k:'ok',c:'',v:[]};
      case'fetch':return this.fetch(o.key,o.more||'');
      case'xinst':this.x=Index.install(this.w,this.n.id,PRIN.admin);return{k:'ok',c:'',v:[]};
      case'xup':return this.xup();
      case'xq':return this.xquery(o);
      case'xend':return this.xend(o);
      case'wait':return{k:'ok',c:'',v:[]};
      case'upgrade':{const r=this.n.upgrade(PRIN.admin);if(!r.rej)this.gcend();if(this.held&&!r.rej)this.release();this.w.run();return r.rej?{k:'rej',c:'',v:[],m:r.msg}:{k:'ok',c:'',v:[]};}
    }
    return this.query(o);}
  respU(r,f=()=>[]){if(r.held)return{k:'held',c:'',v:[]};return this.resp(r,'one',f);}
  query(o){
    const by=PRIN[o.by||'x'],N=numIn;let r;const q=(m,...a)=>this.n.q(m,by,...a);
    const okv=(r,f)=>r.rej?{k:'rej',c:'',v:[],m:r.msg}:{k:'ok',c:'',v:f(r.ok[0])};
    switch(o.op){
      case'q_tokens':return okv(q('icrc7_tokens',o.prev.map(N),o.take.map(N)),x=>x.map(Number));
      case'q_tokens_of':return okv(q('icrc7_tokens_of',accIn(o.acc),o.prev.map(N),o.take.map(N)),x=>x.map(Number));
      case'q_owner':return okv(q('icrc7_owner_of',o.ids.map(N)),x=>x.map(y=>y.length?[accOut(y[0])]:[]));
      case'q_meta':return okv(q('icrc7_token_metadata',o.ids.map(N)),x=>x.map(y=>y.length?[metaOut(y[0])]:[]));
      case'q_balance':return okv(q('icrc7_balance_of',o.ids.map(accIn)),x=>x.map(Number));
      case'q_approved':return okv(q('icrc37_is_approved',o.ids.map(i=>({spender:accIn(i.sp),from_subaccount:[],token_id:N(i.id)}))),x=>x.map(y=>y?1:0));
      case'q_tapp':return okv(q('icrc37_get_token_approvals',N(o.id),o.prev.map(sp=>({token_id:N(o.id),approval_info:{spender:accIn(sp),from_subaccount:[],expires_at:[],memo:[],created_at_time:0n}})),o.take.map(N)),x=>x.map(y=>this.appr(y.approval_info)));
      case'q_capp':return okv(q('icrc37_get_collection_approvals',accIn(o.acc),o.prev.map(sp=>({approval_info:{spender:accIn(sp),from_subaccount:[],expires_at:[],memo:[],created_at_time:0n}})),o.take.map(N)),x=>x.map(y=>this.appr(y.approval_info??y)));
      case'q_ust':{r=q('get_upload_status',o.path);if(r.rej)return{k:'rej',c:'',v:[],m:r.msg};return this.one(r.ok[0],x=>Object.keys(x)[0]);}
      case'q_uploads':{r=q('get_all_uploads',o.prev.map(N),o.take.map(N));if(r.rej)return{k:'rej',c:'',v:[],m:r.msg};return this.one(r.ok[0],l=>l.map(e=>[e._0,Object.keys(e._1)[0]]).sort((a,b)=>Buffer.compare(Buffer.from(a[0]),Buffer.from(b[0]))));}
      case'q_consent':return this.consent(o);
      case'q_inst':return this.inst(o);
      case'q_upbad':{r=this.w.upgrade(this.n.id,WASM('core_nft'),initArg(initArgs(this.init)),PRIN.admin);return r.rej?{k:'rej',c:'',v:[],m:r.msg}:{k:'ok',c:'',v:[]};}
      case'q_xinst':return this.xinst2(o);
      case'q_xupbad':{r=this.w.upgrade(this.x.id,WASM('index_icrc7'),indexInitArg(this.n.id),PRIN.admin);return r.rej?{k:'rej',c:'',v:[],m:r.msg}:{k:'ok',c:'',v:[]};}
      // an outsider turns to a storage canister itself
      case'q_direct':{const w=this.w,s=w.snap();try{let k='rej';for(const c of w.cans.values()){const ex=c.inst&&c.inst.exports;if(!ex||c.id===this.n.id||!ex['canister_update '+o.m]||!ex['canister_query get_storage_size'])continue;
        const a={init_upload:()=>({file_path:o.path,file_hash:sha256hex(Buffer.from([1])),file_size:1n,chunk_size:[]}),store_chunk:()=>({file_path:o.path,chunk_id:0n,chunk_data:Buffer.from([1])}),finalize_upload:()=>({file_path:o.path}),cancel_upload:()=>({file_path:o.path})}[o.m]();
        const x=w.update(c.id,o.m,enc(o.m,a),PRIN[o.by]);if(!x.rej||c.controllers.some(p=>[].concat(p).join()===PRIN[o.by]))k='ok';}return{k,c:'',v:[]};}finally{w.restore(s);}}
      case'q_subs':{r=q('get_all_storage_subcanisters');return r.rej?{k:'rej',c:'',v:[],m:r.msg}:{k:'ok',c:'',v:r.ok[0].length};}
      case'q_blocks':{const x=this.ranges(o.args);if(x.rej)return{k:'rej',c:'',v:[],m:x.msg};
        for(const[i,b]of x.here)if(this.blocks[i]?.raw!==b.raw)return{k:'?',c:'block '+i+' has changed',v:[]};
        for(const a of x.far){const l=this.archived(a);if(l.rej)return{k:'?',c:'archive: '+l.msg,v:[]};const w=a.args.flatMap(([s,n])=>Array.from({length:n},(_,j)=>s+j));
          if(l.map(e=>e[0]).join()!==w.join())return{k:'?',c:'the archive answers '+l.map(e=>e[0]).join(' '),v:[]};for(const[i,b]of l)if(this.blocks[i]?.raw!==b.raw)return{k:'?',c:'block '+i+' has changed',v:[]};}
        return{k:'ok',c:'',v:[x.len,x.here.map(e=>e[0]),x.far.flatMap(a=>a.args)]};}
      case'q_archs':return okv(q('icrc3_get_archives'),x=>x.map(e=>[Number(e.start),Number(e.end)]));
      case'q_perms':{r=q('get_user_permissions',{principal:PRIN[o.who]});if(r.rej)return{k:'rej',c:'',v:[],m:r.msg};return this.one(r.ok[0],l=>[...new Set((l.permissions||l).map(x=>Object.keys(x)[0]))].sort());}
      case'q_has':{r=q('has_permission',{principal:PRIN[o.who],permission:{[o.perm]:null}});if(r.rej)return{k:'rej',c:'',v:[],m:r.msg};return r.ok[0]===true||r.ok[0]===false?{k:'ok',c:'',v:r.ok[0]?1:0}:this.one(r.ok[0],x=>x?1:0);}
    }
    throw new Error('op '+o.op);}
  appr(i){return{sp:accOut(i.spender),fs:subO(i.from_subaccount),exp:opt(i.expires_at).map(x=>this.clock.ms(x)),memo:memoOut(i.memo),at:this.clock.ms(i.created_at_time)};}
  block(b,prev){const m=Object.fromEntries(b.Map.map(e=>[e._0,V(e._1)]));const tx=Object.fromEntries((m.tx||[]).map(e=>[e._0,V(e._1)]));
    const o=(k,f)=>tx[k]===undefined?[]:[f(tx[k])];
    const meta=[];if(tx.meta){const mm=Object.fromEntries(tx.meta.map(e=>[e._0,e._1]));for(const k of['icrc7:previous_metadata','icrc7:new_metadata'])if(mm[k])meta.push(metaOut(V(mm[k])));else meta.push('absent');}
    return{p:{t:m.btype,op:tx.op,tid:o('tid',Number),from:o('from',ptext),to:o('to',ptext),sp:o('spender',ptext),memo:o('memo',x=>memoOut([x])[0]),cr:o('created_at_time',x=>this.clock.ms(x)),exp:o('exp',x=>this.clock.ms(x)),meta,ts:this.clock.ms(m.timestamp)},
      raw:JSON.stringify(b,(k,v)=>typeof v==='bigint'?String(v):v instanceof Uint8Array?Buffer.from(v).toString('hex'):v),
      phash:m.phash?Buffer.from(m.phash).toString('hex'):'none',thash:m.thash?Buffer.from(m.thash).toString('hex'):'none'};}
  // requested ranges [start,length]: what the ledger holds itself, and the ranges to ask an archive for
  ranges(args){const r=this.n.q('icrc3_get_blocks',PRIN.x,args.map(([a,l])=>({start:BigInt(a),length:BigInt(l)})));if(r.rej)return r;
    const x=r.ok[0];return{len:Number(x.log_length),here:x.blocks.map(e=>[Number(e.id),this.block(e.block)]),far:x.archived_blocks.map(a=>({id:a.callback.principal,m:a.callback.method,args:a.args.map(g=>[Number(g.start),Number(g.length)])}))};}
  archived(a){const r=this.w.query(a.id,a.m,encode([T.vec(T.record({start:T.nat,length:T.nat}))],[a.args.map(([s,l])=>({start:BigInt(s),length:BigInt(l)}))]),PRIN.x);
    return r.rej?r:decode(r.ok)[0].blocks.map(e=>[Number(e.id),this.block(e.block)]);}
  // blocks [from,to) wherever they are
  getBlocks(from,to){const out=[];let len=0,archived=0;
    for(let i=from;i===from||i<Math.min(to,len);i+=1000){const x=this.ranges([[i,Math.max(0,Math.min(1000,to-i))]]);if(x.rej)return{err:x.msg};len=x.len;archived+=x.far.length;
      for(const[j,b]of x.here)out[j-from]=b;for(const a of x.far){const l=this.archived(a);if(l.rej)return{err:'archive: '+l.msg};for(const[j,b]of l)out[j-from]=b;}}
    return{len,out,archived};}
  // the whole log, compared with the blocks as they were first seen
  whole(){const n=this.blocks.length,r=this.getBlocks(0,n);if(r.err)return r.err;if(r.len!==n)return'length '+r.len;
    for(let i=0;i<n;i++){if(!r.out[i])return'block '+i+' is missing';if(r.out[i].raw!==this.blocks[i].raw)return'block '+i+' has changed';if(r.out[i].phash!==(i?r.out[i-1].thash:'00'.repeat(32)))return'block '+i+' is not linked';}
    return r.out.length===n?this.tip(n):'too many';}
  // the tip the ledger shows is the same as long as the log is, and another for every block; and the types of all blocks are declared
  tip(n){const r=this.n.q('icrc3_get_tip_certificate',PRIN.x);if(r.rej)return'tip: '+r.msg;const t=Buffer.from(r.ok[0].hash_tree).toString('hex');
    const old=this.tips.indexOf(t);if(old>=0&&old!==n)return`tip of ${n} blocks is that of ${old}`;if(this.tips[n]!==undefined&&this.tips[n]!==t)return'tip of '+n+' blocks has changed';this.tips[n]=t;
    const b=this.n.q('icrc3_supported_block_types',PRIN.x);if(b.rej)return'types: '+b.msg;const d=new Set(b.ok[0].map(x=>x.block_type));for(const x of this.blocks)if(!d.has(x.p.t))return'type '+x.p.t+' is not declared';return'ok';}
  // u: {accs, ids, spenders}
  observe(u,v){
    const A=PRIN.x,n=this.n,N=numIn,K={};const mq=v.cfg.max_query_batch_size.length?v.cfg.max_query_batch_size[0]:100,mt=v.cfg.max_take_value.length?v.cfg.max_take_value[0]:100;
    const ids=u.ids(v),accs=u.accs;const list=[];const post=[];
    const add=(f,...a)=>{list.push(a);post.push(f);};
    const chunk=(l,k)=>{const r=[];if(k>0)for(let i=0;i<l.length;i+=k)r.push(l.slice(i,i+k));return r;};
    for(const c of chunk(ids,mq))add(r=>c.forEach((i,j)=>K['owner:'+i]=r.rej?'rej '+r.msg:r.ok[0][j].length?akey(accOut(r.ok[0][j][0])):'-'),'icrc7_owner_of',A,c.map(N));
    for(const c of chunk(accs,mq))add(r=>c.forEach((a,j)=>K['bal:'+akey(a)]=r.rej?'rej '+r.msg:String(r.ok[0][j])),'icrc7_balance_of',A,c.map(accIn));
    for(const c of chunk(ids,mq))add(r=>c.forEach((i,j)=>K['meta:'+i]=r.rej?'rej '+r.msg:r.ok[0][j].length?metaOut(r.ok[0][j][0]):'-'),'icrc7_token_metadata',A,c.map(N));
    add(r=>K.supply=r.rej?'rej':String(r.ok[0]),'icrc7_total_supply',A);
    const tk=[numIn(mt)];
    add(r=>K.tokens=r.rej?'rej '+r.msg:r.ok[0].join(' '),'icrc7_tokens',A,[],tk);
    for(const a of accs)add(r=>K['list:'+akey(a)]=r.rej?'rej '+r.msg:r.ok[0].join(' '),'icrc7_tokens_of',A,accIn(a),[],tk);
    const al=x=>JSON.stringify(x);
    for(const i of ids)add(r=>K['tapp:'+i]=r.rej?'rej '+r.msg:al(r.ok[0].map(y=>this.appr(y.approval_info))),'icrc37_get_token_approvals',A,N(i),[],[1000n]);
    for(const a of accs)add(r=>K['capp:'+akey(a)]=r.rej?'rej '+r.msg:al(r.ok[0].map(y=>this.appr(y.approval_info??y))),'icrc37_get_collection_approvals',A,accIn(a),[],[1000n]);
    const pairs=[];for(const i of ids)for(const a of accs)pairs.push([a,i]);
    if(mq>0){const yes=[];K.appd='';for(const c of chunk(pairs,mq))add(r=>{if(r.rej){yes.push('rej '+r.msg);}else c.forEach(([a,i],j)=>{if(r.ok[0][j])yes.push(akey(a)+'>'+i);});K.appd=yes.sort().join(' ');},'icrc37_is_approved',A,c.map(([a,i])=>({spender:accIn(a),from_subaccount:[],token_id:N(i)})));}
    for(const[k,m]of Object.entries(GETTERS))add(r=>K['cfg:'+k]=r.rej?'rej':JSON.stringify(opt(r.ok[0]).map(x=>cfgOut(k,x))),m,A);
    add(r=>K.cmeta=r.rej?'rej':r.ok[0].map(e=>e._0+'='+String(V(e._1))).join('|'),'icrc7_collection_metadata',A);
    add(r=>K.maxappr=r.rej?'rej':String(opt(r.ok[0]).map(numOut)[0]),'icrc37_max_approvals_per_token_or_collection',A);
    add(r=>K.maxrev=r.rej?'rej':String(opt(r.ok[0]).map(numOut)[0]),'icrc37_max_revoke_approvals',A);
    const auth=v.perm.find(([p,l])=>l.includes('ManageAuthorities'));
    if(auth)for(const p of u.prins)add(r=>K['perm:'+p]=r.rej?'rej '+r.msg:'Err'in r.ok[0]?'-':[...new Set((r.ok[0].Ok.permissions||r.ok[0].Ok).map(x=>Object.keys(x)[0]))].sort().join(' '),'get_user_permissions',PRIN[auth[0]],{principal:PRIN[p]});
    if(u.metrics){const r=this.http('/metrics');try{const m=JSON.parse(Buffer.from(r.body).toString()),c=m.canister_info;K.mrel=c.commit_hash+' '+Object.values(c.version).join('.');K.mtest=String(c.test_mode);K.mperm=Object.entries(m.permissions.user_permissions).filter(e=>e[1].length).map(([p,l])=>p+': '+[...new Set(l)].sort().join(' ')).sort().join('; ');}catch(e){K.mrel='unreadable '+(r.msg||r.status_code);}}
    if(u.paths.length){
      const rd=v.perm.find(([p,l])=>l.includes('ReadUploads'));
      if(rd)for(const p of u.paths)add(r=>K['ust:'+p]=r.rej?'rej '+r.msg:'Err'in r.ok[0]?'-':Object.keys(r.ok[0].Ok)[0],'get_upload_status',PRIN[rd[0]],p);
      if(auth)add(r=>K.subs=r.rej?'rej '+r.msg:String(r.ok[0].length)+(r.ok[0].every(c=>this.w.c(c))?'':' unknown'),'get_all_storage_subcanisters',PRIN[auth[0]]);
      for(const k of u.keys){const x=this.redirect(k);K['http:'+k]=x==='-'?'-':x[1]||(this.w.c(x[0])?'redirect':'leads nowhere');}
      if(u.pages)for(const k of['/logs','/traces','/metrics']){const r=this.http(k);K['page:'+k]=r.rej?'rej '+r.msg:r.status_code!==200?'status '+r.status_code:certOk(r,this.w.c(this.n.id).cert,k)||'page';}
    }
    const have=this.blocks.length;let gl;
    add(r=>gl=r,'icrc3_get_blocks',A,[{start:BigInt(have),length:100n}]);
    const rs=n.qs(list);rs.forEach((r,i)=>post[i](r));
    if(gl.rej){K.len='rej '+gl.msg;}else{const x=gl.ok[0];K.len=String(x.log_length);
      let exp=have;for(const e of x.blocks){const b=this.block(e.block);if(Number(e.id)!==exp)K['chain:'+exp]='id '+e.id;const prev=exp?this.blocks[exp-1]?.thash:'00'.repeat(32);if(b.phash!==prev)K['chain:'+exp]='phash';K['block:'+exp]=JSON.stringify(b.p);this.blocks.push(b);exp++;}}
    if(u.arch)K.whole=this.whole();
    if(this.x)this.xobserve(K,u,v);
    return K;}
}
const subO=o=>accOut({owner:PRIN.x,subaccount:opt(o)}).s;
// what the specification prescribes, in the same form; prev = number of blocks before this step
export function expected(u,v,bl,init){
  const K={};const ids=u.ids(v),own=new Map(v.own.map(([i,a])=>[i,a])),meta=new Map(v.meta),ta=new Map(v.tapp),ca=new Map(v.capp.map(([a,l])=>[akey(a),l]));
  const by=new Map();for(const[i,a]of v.own){const k=akey(a);if(!by.has(k))by.set(k,[]);by.get(k).push(i);}
  for(const l of by.values())l.sort((x,y)=>x-y);
  const mq=v.cfg.max_query_batch_size.length?v.cfg.max_query_batch_size[0]:100,mt=v.cfg.max_take_value.length?v.cfg.max_take_value[0]:100;
  const al=l=>JSON.stringify((l||[]).map(x=>({sp:{p:x.sp.p,s:x.sp.s},fs:x.fs,exp:x.exp,memo:x.memo,at:x.at})));
  for(const i of ids){if(mq>0){K['owner:'+i]=own.has(i)?akey(own.get(i)):'-';K['meta:'+i]=meta.has(i)?meta.get(i):'-';}K['tapp:'+i]=al(ta.get(i));}
  for(const a of u.accs){const k=akey(a),l=by.get(k)||[];if(mq>0)K['bal:'+k]=String(l.length);K['list:'+k]=l.slice(0,mt).join(' ');K['capp:'+k]=al(ca.get(k));}
  K.supply=String(own.size);K.tokens=[...own.keys()].sort((x,y)=>x-y).slice(0,mt).join(' ');
  const names=new Set(u.accs.map(akey));
  if(mq>0)K.appd=v.appd.map(([a,i])=>akey(a)+'>'+i).filter(s=>names.has(s.split('>')[0])).sort().join(' ');
  for(const k of Object.keys(GETTERS)){const x=v.cfg[k];K['cfg:'+k]=JSON.stringify(x);}
  K.cmeta=cmeta(v,own.size);
  K.maxappr=String(init.maxappr[0]);K.maxrev=String(init.maxrev[0]);
  const auth=v.perm.find(([p,l])=>l.includes('ManageAuthorities'));
  if(auth){const pm=new Map(v.perm);for(const p of u.prins)K['perm:'+p]=pm.has(p)?[...pm.get(p)].sort().join(' '):'-';}
  if(u.metrics){K.mrel=v.rel?'y 0.2.0':'x 0.1.0';K.mtest=String(v.test===1);K.mperm=v.perm.filter(e=>e[1].length).map(([p,l])=>PRIN[p]+': '+[...l].sort().join(' ')).sort().join('; ');}
  if(u.paths.length){const fs=new Map(v.files);if(v.perm.some(([p,l])=>l.includes('ReadUploads')))for(const p of u.paths)K['ust:'+p]=fs.get(p)||'-';
    if(auth)K.subs=String(v.subs);for(const k of u.keys)K['http:'+k]=v.red.includes(k)?'redirect':'-';if(u.pages)for(const k of['/logs','/traces','/metrics'])K['page:'+k]='page';}
  K.len=String(v.len);if(u.arch)K.whole='ok';
  if(v.x.on){K['x:n']=String(v.x.n);K['x:ledger']='ok';if(v.x.n<=60){const m=new Map(v.x.keys.map(([f,l])=>[fkey(f),l]));for(const f of xfilters(u,v))K['x:'+fkey(f)]=(m.get(fkey(f))||[]).join(' ');}}
  bl.forEach((b,j)=>{K['block:'+(v.len-bl.length+j)]=JSON.stringify({t:b.t,op:b.t,tid:b.tid,from:b.from.map(a=>a.p),to:b.to.map(a=>a.p),sp:b.sp.map(a=>a.p),memo:b.memo,cr:b.cr,exp:b.exp,meta:b.meta,ts:b.ts});});
  return K;}
// the collection metadata listing, computed from the configuration
const raw=(k,x)=>k==='atomic_batch_transfers'?String(x===1):String(cfgIn(k,x));
function cmeta(v,supply){const m=[['icrc7:total_supply',String(supply)]];for(const k of Object.keys(GETTERS))if(v.cfg[k].length)m.push(['icrc7:'+k,raw(k,v.cfg[k][0])]);return m.sort((a,b)=>a[0]<b[0]?-1:1).map(e=>e.join('=')).join('|');}
export function universe(init,ops){
  const accs=new Map(),prins=new Set(Object.keys(init.perm));
  const add=a=>{if(a&&a.p&&a.p!=='anon'){prins.add(a.p);for(const s of[0,a.s<0?0:a.s])accs.set(akey({p:a.p,s}),{p:a.p,s});}};
  const walk=x=>{if(Array.isArray(x))x.forEach(walk);else if(x&&typeof x==='object'){if(typeof x.p==='string'&&'s'in x)add(x);else Object.values(x).forEach(walk);}};
  for(const o of ops){walk(o);if(o.by&&o.by!=='anon'&&['mint','umeta','ucfg','grant','revoke','q_perms','q_has','iu','sc','fu','cu','q_ust','q_uploads','q_subs','q_direct'].indexOf(o.op)<0){add({p:o.by,s:0});for(const it of o.items||[])for(const f of['fs','ss'])if(it[f]>0)add({p:o.by,s:it[f]});}else if(o.by)prins.add(o.by);if(o.who)prins.add(o.who);}
  prins.delete('anon');const paths=[...new Set(ops.filter(o=>o.path).map(o=>o.path))];
  return{paths,keys:[...new Set(paths.map(keyOf))].filter(k=>!['/logs','/traces','/metrics'].includes(k)),pages:paths.length>0,metrics:ops.some(o=>['grant','revoke','upgrade'].includes(o.op)),arch:ops.some(o=>o.op==='q_blocks'||o.op==='xinst'),accs:[...accs.values()],prins:[...prins],ids:v=>{const r=[0];for(let i=1;i<=v.nxt;i++)r.push(i);return r;}};}
