// Families: the configurations and operation tables that the specification is explored with.
import {RANK,PRANK,keyOf,badPath} from './abs.mjs';
const FIELDS='name symbol description logo supply_cap max_query_batch_size max_update_batch_size max_take_value default_take_value max_memo_size atomic_batch_transfers tx_window permitted_drift max_canister_storage_threshold'.split(' ');
export const A=(p,s=0)=>({p,s});
const arr=x=>x===undefined||(Array.isArray(x)&&!x.length)?[]:[x];
export function init(o={}){const cfg={};for(const k of FIELDS)cfg[k]=arr(o[k]);if(!cfg.name.length)cfg.name=['NAME'];if(!cfg.symbol.length)cfg.symbol=['SYM'];
  return{cfg,maxappr:arr(o.maxappr),maxrev:arr(o.maxrev),perm:o.perm||{admin:['Minting','UpdateMetadata','UpdateCollectionMetadata','ManageAuthorities']},rank:RANK,prank:o.prank||PRANK,test:o.test||0};}
export const DT=200;
export const now=['r',0];
const acc=x=>typeof x==='string'?A(x):x;
export const req=(to,o={})=>({to:acc(to),memo:arr(o.memo),meta:o.meta||'m0'});
export const mint=(reqs,o={})=>({op:'mint',by:o.by||'admin',dt:o.dt??DT,reqs:(Array.isArray(reqs)?reqs:[reqs]).map(r=>r.to?r:req(r))});
export const burn=(by,id,o={})=>({op:'burn',by,id,dt:o.dt??DT});
export const xi=(id,to,o={})=>({id,to:acc(to),fs:o.fs??0,memo:arr(o.memo),cr:o.cr||[]});
export const xfer=(by,...it)=>{const o=typeof it[0]==='number'?it[2]||{}:{};const items=typeof it[0]==='number'?[xi(it[0],it[1],o)]:it[0];const oo=typeof it[0]==='number'?o:it[1]||{};return{op:'xfer',by,dt:oo.dt??DT,items};};
export const fi=(id,from,to,o={})=>({id,from:acc(from),to:acc(to),ss:o.ss??0,memo:arr(o.memo),cr:o.cr||[]});
export const xfrom=(by,id,from,to,o={})=>Array.isArray(id)?{op:'xfrom',by,dt:from?.dt??DT,items:id}:{op:'xfrom',by,dt:o.dt??DT,items:[fi(id,from,to,o)]};
export const ai=(id,sp,o={})=>({id,sp:acc(sp),fs:o.fs??0,exp:o.exp||[],memo:arr(o.memo),cr:o.cr||now});
export const appr=(by,id,sp,o={})=>Array.isArray(id)?{op:'appr',by,dt:sp?.dt??DT,items:id}:{op:'appr',by,dt:o.dt??DT,items:[ai(id,sp,o)]};
export const ci=(sp,o={})=>({sp:acc(sp),fs:o.fs??0,exp:o.exp||[],memo:arr(o.memo),cr:o.cr||now});
export const apprc=(by,sp,o={})=>Array.isArray(sp)?{op:'apprc',by,dt:o.dt??DT,items:sp}:{op:'apprc',by,dt:o.dt??DT,items:[ci(sp,o)]};
export const ri=(id,sp,o={})=>({id,sp:sp?[acc(sp)]:[],fs:o.fs??0,memo:arr(o.memo),cr:o.cr||[]});
export const rev=(by,id,sp,o={})=>Array.isArray(id)?{op:'rev',by,dt:sp?.dt??DT,items:id}:{op:'rev',by,dt:o.dt??DT,items:[ri(id,sp,o)]};
export const rci=(sp,o={})=>({sp:sp?[acc(sp)]:[],fs:o.fs??0,memo:arr(o.memo),cr:o.cr||[]});
export const revc=(by,sp,o={})=>Array.isArray(sp)?{op:'revc',by,dt:o.dt??DT,items:sp}:{op:'revc',by,dt:o.dt??DT,items:[rci(sp,o)]};
export const umeta=(id,meta,o={})=>({op:'umeta',by:o.by||'admin',dt:o.dt??DT,id,meta});
export const ucfg=(f,o={})=>({op:'ucfg',by:o.by||'admin',dt:o.dt??DT,f:Object.entries(f)});
export const grant=(by,who,perm,o={})=>({op:'grant',by,dt:o.dt??DT,who,perm});
export const revoke=(by,who,perm,o={})=>({op:'revoke',by,dt:o.dt??DT,who,perm});
export const wait=dt=>({op:'wait',dt});
export const upgrade=(o={})=>({op:'upgrade',dt:o.dt??DT});
export const q={
  tokens:(prev,take)=>({op:'q_tokens',dt:0,prev:arr(prev),take:arr(take)}),tokens_of:(a,prev,take)=>({op:'q_tokens_of',dt:0,acc:acc(a),prev:arr(prev),take:arr(take)}),
  owner:ids=>({op:'q_owner',dt:0,ids}),meta:ids=>({op:'q_meta',dt:0,ids}),balance:as=>({op:'q_balance',dt:0,ids:as.map(acc)}),approved:l=>({op:'q_approved',dt:0,ids:l.map(([sp,id])=>({sp:acc(sp),id}))}),
  tapp:(id,prev,take)=>({op:'q_tapp',dt:0,id,prev:prev?[acc(prev)]:[],take:arr(take)}),capp:(a,prev,take)=>({op:'q_capp',dt:0,acc:acc(a),prev:prev?[acc(prev)]:[],take:arr(take)}),
  perms:(by,who)=>({op:'q_perms',by,dt:0,who}),has:(by,who,perm)=>({op:'q_has',by,dt:0,who,perm})};
export const fam=(name,o)=>({name,init:init(o.init),prelude:o.prelude||[],ops:o.ops,depth:o.depth,agecap:o.agecap??0,abstime:o.abstime??0,arch:o.arch??0,paths:o.paths??0,tag:o.tag||[]});

const ft=f=>f?[{m:f[0],n:f[1]}]:[];
const upl=(op,path,o)=>({op,by:o.by||'admin',dt:o.dt??0,path,key:keyOf(path),f:ft(o.f),hold:o.hold||''});
export const iu=(path,doc,o={})=>({...upl('iu',path,o),bad:badPath(path),doc,size:o.size??doc.length,csz:arr(o.csz)});
export const sc=(path,i,data,o={})=>({...upl('sc',path,o),i,data});
export const fu=(path,o={})=>upl('fu',path,o),cu=(path,o={})=>upl('cu',path,o);
export const end=(dt=0)=>({op:'end',dt});
export const gcend=(dt=0)=>({op:'gcend',dt});
export const waitf=(dt,f)=>({op:'wait',dt,f:ft(f)});
export const during=(dt,sub)=>({op:'during',dt,sub:{...sub,dt:0}});
export const DAY=86400000;
Object.assign(q,{fetch:(path,more='')=>({op:'fetch',dt:0,key:keyOf(path),more}),ust:(path,by='admin')=>({op:'q_ust',by,dt:0,path}),uploads:(prev,take,by='admin')=>({op:'q_uploads',by,dt:0,prev:arr(prev),take:arr(take)}),blocks:(...args)=>({op:'q_blocks',dt:0,args}),archs:()=>({op:'q_archs',dt:0}),direct:(by,m,path)=>({op:'q_direct',by,dt:0,m,path}),subs:(by='admin')=>({op:'q_subs',by,dt:0})});
export const UPERM={admin:['Minting','UpdateMetadata','UpdateCollectionMetadata','ManageAuthorities','ReadUploads','UpdateUploads']};
// the index
export const fa=(p,s=0)=>({t:'acc',p,s}),ty=v=>({t:'type',v}),tk=id=>({t:'tok',id});
export const xinst=(dt=7)=>({op:'xinst',dt}),xup=(dt=7)=>({op:'xup',dt});
export const xq=(start,len,o={})=>({op:'xq',dt:o.dt??0,start,len,filters:o.by||[],desc:o.desc??0,hold:o.hold||'',f:ft(o.f)});
export const xend=(i=1,o={})=>({op:'xend',dt:o.dt??0,i,f:ft(o.f)});
export const waith=(dt,hold,f)=>({op:'wait',dt,hold,f:ft(f)});
// a consent message: for call (shown for its own method unless m says another), junk: not its arguments
const METH={xfer:'icrc7_transfer',xfrom:'icrc37_transfer_from',appr:'icrc37_approve_tokens',apprc:'icrc37_approve_collection',rev:'icrc37_revoke_token_approvals',revc:'icrc37_revoke_collection_approvals'};
export const METHS=Object.values(METH);
q.consent=(call,o={})=>({op:'q_consent',by:o.by||'x',dt:0,of:{...call,dt:0},m:o.m??METH[call.op],junk:o.junk||'',lang:o.lang||'en',off:arr(o.off),dev:o.dev??0});
q.inst=(c={},o={})=>({op:'q_inst',by:o.by||'admin',dt:0,kind:o.kind||'init',test:o.test??0,c:init(c)});
q.xinst=(kind='init',o={})=>({op:'q_xinst',by:o.by||'admin',dt:0,kind,test:o.test??0});
q.xupbad=()=>({op:'q_xupbad',dt:0});
q.upbad=(o={})=>({op:'q_upbad',dt:o.dt??0});
