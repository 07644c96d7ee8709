// Small helpers of the demonstrations: they run the canisters built from the working directory.
export {World} from './emu/ic.mjs';
import {World} from './emu/ic.mjs';import {Nft,Index,user,sub,enc,sha256hex} from './emu/nft.mjs';import {decode,ANON} from './emu/candid.mjs';
export {Nft,Index,user,sub,enc,sha256hex,decode,ANON};
export const acc=(p,s)=>({owner:p.length>20?p:user(p),subaccount:s===undefined?[]:[sub(s)]});
export const A=user('admin');
let bad=0;
const show=x=>JSON.stringify(x,(k,v)=>typeof v==='bigint'?Number(v):v);
export function is(what,got,want){const g=show(got),w=show(want);if(g!==w){bad++;console.log(`FAIL ${what}: got ${g}, expected ${w}`);}else console.log(`ok   ${what}`);}
export function ok(what,c,extra){if(!c){bad++;console.log(`FAIL ${what} ${extra===undefined?'':show(extra)}`);}else console.log(`ok   ${what}`);}
export const done=()=>{console.log(bad?'broken':'fine');process.exit(bad?1:0);};
export const MS=1000000n,SEC=1000n*MS;
export class Demo{
  constructor(o={}){this.w=new World();this.n=Nft.install(this.w,o);this.w.tick(SEC);}
  tick(ns=SEC){this.w.tick(ns);}
  now(){return this.w.time;}
  // the calls come a second apart
  u(m,by,...a){this.tick();const r=this.n.upd(m,user(by),...a);if(r.rej)return{rej:r.msg};return r.hang?{hang:1}:r.ok[0];}
  q(m,...a){const r=this.n.q(m,user('x'),...a);return r.rej?{rej:r.msg}:r.ok[0];}
  mint(to,meta={},memo){return this.u('mint','admin',{mint_requests:[{token_owner:to,memo:memo?[memo]:[],metadata:Object.entries(meta).map(([k,v])=>({_0:k,_1:v}))}]});}
  xfer(by,to,id,o={}){const r=this.u('icrc7_transfer',by,[{to,token_id:BigInt(id),memo:o.memo?[o.memo]:[],from_subaccount:[],created_at_time:o.at?[o.at]:[]}]);return Array.isArray(r)?r[0][0]??r[0]:r;}
  xfrom(by,from,to,id,o={}){const r=this.u('icrc37_transfer_from',by,[{spender_subaccount:o.ss?[sub(o.ss)]:[],from,to,token_id:BigInt(id),memo:[],created_at_time:o.at?[o.at]:[]}]);return r.Ok?r.Ok[0][0]??r.Ok[0]:r;}
  info(sp,o={}){return{spender:sp,from_subaccount:o.fs!==undefined?[sub(o.fs)]:[],expires_at:o.exp?[o.exp]:[],memo:[],created_at_time:o.at??this.w.time+SEC};}
  appr(by,sp,id,o={}){const r=this.u('icrc37_approve_tokens',by,[{token_id:BigInt(id),approval_info:this.info(sp,o)}]);return r.Ok?r.Ok[0][0]??r.Ok[0]:r;}
  apprc(by,sp,o={}){const r=this.u('icrc37_approve_collection',by,[{approval_info:this.info(sp,o)}]);return r.Ok?r.Ok[0][0]??r.Ok[0]:r;}
  rev(by,id,sp,o={}){const r=this.u('icrc37_revoke_token_approvals',by,[{spender:sp?[sp]:[],from_subaccount:[],token_id:BigInt(id),memo:[],created_at_time:[]}]);return r.Ok?r.Ok[0][0]??r.Ok[0]:r;}
  revc(by,sp,o={}){const r=this.u('icrc37_revoke_collection_approvals',by,[{spender:sp?[sp]:[],from_subaccount:[],memo:[],created_at_time:[]}]);return r.Ok?r.Ok[0][0]??r.Ok[0]:r;}
  owner(id){const r=this.q('icrc7_owner_of',[BigInt(id)]);return r[0]?.[0]?.owner??null;}
  bal(a){return Number(this.q('icrc7_balance_of',[a])[0]);}
  tokens(prev,take){return this.q('icrc7_tokens',prev===undefined?[]:[BigInt(prev)],take===undefined?[]:[BigInt(take)]).map(Number);}
  of(a,prev,take){return this.q('icrc7_tokens_of',a,prev===undefined?[]:[BigInt(prev)],take===undefined?[]:[BigInt(take)]).map(Number);}
  approved(sp,id){return this.q('icrc37_is_approved',[{spender:sp,from_subaccount:[],token_id:BigInt(id)}])[0];}
  meta(id){const r=this.q('icrc7_token_metadata',[BigInt(id)]);return r[0]?.[0]?.map(e=>[e._0,Object.values(e._1)[0]])??null;}
  upgrade(){this.tick();const r=this.n.upgrade(A);if(r.rej)return r.msg;this.w.run();return'';}
  block(i){const r=this.q('icrc3_get_blocks',[{start:BigInt(i),length:1n}]);const b=r.blocks[0];if(!b)return null;const m=Object.fromEntries(b.block.Map.map(e=>[e._0,e._1]));const tx=Object.fromEntries(m.tx.Map.map(e=>[e._0,Object.values(e._1)[0]]));return{type:Object.values(m.btype)[0],tx};}
  log(){return Number(this.q('icrc3_get_blocks',[{start:0n,length:0n}]).log_length);}
  grant(who,p){return this.u('grant_permission','admin',{principal:user(who),permission:{[p]:null}});}
  iu(by,path,data,csz){return this.u('init_upload',by,{file_path:path,file_hash:sha256hex(data),file_size:BigInt(data.length),chunk_size:csz?[BigInt(csz)]:[]});}
  sc(by,path,i,data){return this.u('store_chunk',by,{file_path:path,chunk_id:BigInt(i),chunk_data:data});}
  fu(by,path){return this.u('finalize_upload',by,{file_path:path});}
  cu(by,path){return this.u('cancel_upload',by,{file_path:path});}
  ust(path,by='admin'){const r=this.n.q('get_upload_status',user(by),path);return r.rej?{rej:r.msg}:r.ok[0].Ok?Object.keys(r.ok[0].Ok)[0]:r.ok[0];}
  http(url){const r=this.n.q('http_request',user('x'),{method:'GET',url,headers:[],body:new Uint8Array(0),certificate_version:[2]});return r.rej?{rej:r.msg}:r.ok[0];}
  // an index of this ledger: the ids (or the blocks) it answers with
  index(){this.x=Index.install(this.w,this.n.id);this.tick(7n*MS);return this.x;}
  minute(k=1){this.w.tick(60n*SEC*BigInt(k));}
  xq(start,length,filters=[],desc=false,raw=false){const r=this.x.upd('get_blocks',user('x'),{start:BigInt(start),length:BigInt(length),filters,sort_by:[desc?{Descending:null}:{Ascending:null}]});return r.rej?{rej:r.msg}:raw?r.ok[0].blocks:r.ok[0].blocks.map(b=>Number(b.id));}
  xn(){return Number(this.x.q('status',user('x')).ok[0].last_block_id);}
  // an update call that is sent but not answered yet
  send(m,by,...a){return this.w.submit(this.n.id,m,enc(m,...a),user(by));}
}
export const kind=r=>r===null||r===undefined?'none':r.rej?'rej':'Ok'in r?'Ok':r.Err&&typeof r.Err==='object'?Object.keys(r.Err)[0]:String(r.Err);
