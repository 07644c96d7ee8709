// Typed clients for the canisters under test.
import fs from 'node:fs';import path from 'node:path';
import {T,encode,decode,learn,sha256,pToText} from './candid.mjs';
import {World,MGMT} from './ic.mjs';
export const sha256hex=b=>Buffer.from(sha256(b)).toString('hex');
export const REPO=process.env.VERIF_REPO||'/repo';
export const WASM=n=>fs.readFileSync(path.join(REPO,'target/wasm32-unknown-unknown/release/'+n+'.wasm'));
const opt=T.opt,vec=T.vec,nat=T.nat,nat64=T.nat64,text=T.text,blob=T.blob,rec=T.record,vari=T.variant;
export const Account=rec({owner:T.principal,subaccount:opt(blob)});
export const Value=T.rec(v=>vari({Int:T.int,Nat:nat,Text:text,Blob:blob,Array:vec(v),Map:vec(T.tuple(text,v))}));
export const Permission=vari({Minting:T.null,ManageAuthorities:T.null,UpdateMetadata:T.null,UpdateCollectionMetadata:T.null,ReadUploads:T.null,UpdateUploads:T.null});
const Version=rec({major:T.nat32,minor:T.nat32,patch:T.nat32});
const cfgFields={description:opt(text),logo:opt(text),supply_cap:opt(nat),max_query_batch_size:opt(nat),max_update_batch_size:opt(nat),max_take_value:opt(nat),default_take_value:opt(nat),max_memo_size:opt(nat),atomic_batch_transfers:opt(T.bool),tx_window:opt(nat),permitted_drift:opt(nat),max_canister_storage_threshold:opt(nat)};
const InitArgs=rec({test_mode:T.bool,version:Version,commit_hash:text,permissions:rec({user_permissions:vec(T.tuple(T.principal,vec(Permission)))}),symbol:text,name:text,...cfgFields,collection_metadata:vec(T.tuple(text,Value)),approval_init:rec({max_approvals_per_token_or_collection:opt(nat),max_revoke_approvals:opt(nat)})});
const Args=vari({Init:InitArgs,Upgrade:rec({version:Version,commit_hash:text})});
const ApprovalInfo=rec({spender:Account,from_subaccount:opt(blob),expires_at:opt(nat64),memo:opt(blob),created_at_time:nat64});
const M={
  icrc7_transfer:[vec(rec({to:Account,token_id:nat,memo:opt(blob),from_subaccount:opt(blob),created_at_time:opt(nat64)}))],
  icrc7_balance_of:[vec(Account)],icrc7_owner_of:[vec(nat)],icrc7_token_metadata:[vec(nat)],icrc7_tokens:[opt(nat),opt(nat)],icrc7_tokens_of:[Account,opt(nat),opt(nat)],
  icrc37_approve_tokens:[vec(rec({token_id:nat,approval_info:ApprovalInfo}))],icrc37_approve_collection:[vec(rec({approval_info:ApprovalInfo}))],
  icrc37_revoke_token_approvals:[vec(rec({spender:opt(Account),from_subaccount:opt(blob),token_id:nat,memo:opt(blob),created_at_time:opt(nat64)}))],
  icrc37_revoke_collection_approvals:[vec(rec({spender:opt(Account),from_subaccount:opt(blob),memo:opt(blob),created_at_time:opt(nat64)}))],
  icrc37_transfer_from:[vec(rec({spender_subaccount:opt(blob),from:Account,to:Account,token_id:nat,memo:opt(blob),created_at_time:opt(nat64)}))],
  icrc37_get_token_approvals:[nat,opt(rec({token_id:nat,approval_info:ApprovalInfo})),opt(nat)],icrc37_get_collection_approvals:[Account,opt(rec({approval_info:ApprovalInfo})),opt(nat)],
  icrc37_is_approved:[vec(rec({spender:Account,from_subaccount:opt(blob),token_id:nat}))],
  icrc3_get_blocks:[vec(rec({start:nat,length:nat}))],icrc3_get_archives:[],icrc3_get_tip_certificate:[],icrc3_get_properties:[],icrc3_supported_block_types:[],icrc10_supported_standards:[],
  mint:[rec({mint_requests:vec(rec({token_owner:Account,memo:opt(blob),metadata:vec(T.tuple(text,Value))}))})],burn_nft:[nat],
  update_nft_metadata:[rec({token_id:nat,metadata:vec(T.tuple(text,Value))})],
  update_collection_metadata:[rec({...cfgFields,symbol:opt(text),name:opt(text),collection_metadata:opt(vec(T.tuple(text,Value)))})],
  init_upload:[rec({file_path:text,file_hash:text,file_size:nat64,chunk_size:opt(nat64)})],store_chunk:[rec({file_path:text,chunk_id:nat,chunk_data:blob})],finalize_upload:[rec({file_path:text})],cancel_upload:[rec({file_path:text})],
  get_upload_status:[text],get_all_uploads:[opt(nat),opt(nat)],get_all_storage_subcanisters:[],
  grant_permission:[rec({principal:T.principal,permission:Permission})],revoke_permission:[rec({principal:T.principal,permission:Permission})],get_user_permissions:[rec({principal:T.principal})],has_permission:[rec({principal:T.principal,permission:Permission})],
  icrc21_canister_call_consent_message:[rec({method:text,arg:blob,user_preferences:rec({metadata:rec({language:text,utc_offset_minutes:opt(T.int16)}),device_spec:opt(vari({GenericDisplay:T.null}))})})],
  http_request:[rec({method:text,url:text,headers:vec(T.tuple(text,text)),body:blob,certificate_version:opt(T.nat16)})],
  // index
  status:[],ledger_id:[],get_blocks:[rec({start:nat64,length:nat64,filters:vec(vari({Account:Account,TokenId:nat,BlockType:text})),sort_by:opt(vari({Ascending:T.null,Descending:T.null}))})],
};
for(const f of 'icrc7_collection_metadata icrc7_symbol icrc7_name icrc7_description icrc7_logo icrc7_total_supply icrc7_supply_cap icrc7_max_query_batch_size icrc7_max_update_batch_size icrc7_default_take_value icrc7_max_take_value icrc7_max_memo_size icrc7_atomic_batch_transfers icrc7_tx_window icrc7_permitted_drift icrc37_max_approvals_per_token_or_collection icrc37_max_revoke_approvals'.split(' '))M[f]=[];
export const METHODS=M;
learn('Ok','Err','Some','NonExistingTokenId','InvalidRecipient','Unauthorized','TooOld','CreatedInFuture','ledger_time','Duplicate','duplicate_of','GenericError','GenericBatchError','error_code','message','InvalidSpender','ApprovalDoesNotExist',
 'ConcurrentManagementCall','ExceedMaxAllowedSupplyCap','TokenAlreadyExists','InvalidMemo','StorageCanisterError','NotTokenOwner','TokenDoesNotExist','UploadNotFound','FileAlreadyExists','UploadNotInitialized','UploadAlreadyFinalized','UploadNotStarted','IncompleteUpload','DefaultError','UserNotFound',
 'Init','InProgress','Finalized','url','chunk_id','log_length','blocks','archived_blocks','id','block','args','callback','canister_id','start','end','btype','tx','total','last_block_id','ledger_id','status_code','body','headers','upgrade','streaming_strategy',
 'consent_message','metadata','language','utc_offset_minutes','GenericDisplayMessage','UnsupportedCanisterCall','description','ConsentMessageUnavailable','InsufficientPayment','last_block_index','last_block_hash','hash_tree','certificate','name','url','block_type','mode','install','reinstall','upgrade','wasm_module','arg','settings','controllers','sender_canister_version','cycles','running','stopping','stopped','approval_info','archived','token_id','spender','owner','subaccount','FieldsDisplayMessage','fields','intent','FieldsDisplay');
export function enc(method,...args){return encode(M[method],args);}
const V={major:0,minor:1,patch:0};
export function initArg(o={}){const c={};for(const k of Object.keys(cfgFields))c[k]=o[k]===undefined?[]:[o[k]];
  return encode([Args],[{Init:{test_mode:o.test_mode??true,version:V,commit_hash:'x',permissions:{user_permissions:Object.entries(o.permissions||{}).map(([p,l])=>({_0:p,_1:l.map(x=>({[x]:null}))}))},symbol:o.symbol??'SYM',name:o.name??'NAME',...c,collection_metadata:[],
   approval_init:{max_approvals_per_token_or_collection:o.max_approvals===undefined?[]:[o.max_approvals],max_revoke_approvals:o.max_revoke===undefined?[]:[o.max_revoke]}}}]);}
export const upgradeArg=()=>encode([Args],[{Upgrade:{version:{...V,minor:2},commit_hash:'y'}}]);
export const indexInitArg=(ledger,test_mode=true)=>encode([vari({Init:rec({test_mode:T.bool,version:Version,commit_hash:text,authorized_principals:vec(T.principal),ledger_canister_id:T.principal}),Upgrade:rec({version:Version,commit_hash:text})})],[{Init:{test_mode,version:V,commit_hash:'x',authorized_principals:[],ledger_canister_id:ledger}}]);
export const indexUpgradeArg=()=>upgradeArg();
export function dec(r){if(r&&r.ok)return decode(r.ok);return r;}
// user principals: self-authenticating looking
export function user(i){const b=new Uint8Array(29);b.set(sha256(Buffer.from('user'+i)).subarray(0,28));b[28]=2;return pToText(b);}
// subaccounts that differ at one end, in the middle and at the other
export function sub(n){const b=new Uint8Array(32);b[n===2?16:n===3?0:31]=n;return b;}
export class Nft{
  constructor(w,id){this.w=w;this.id=id;}
  static install(w,o={},caller=user('admin')){const id=w.create([caller]);const r=w.install(id,WASM('core_nft'),initArg(o),caller);if(r.rej)throw new Error('init: '+r.msg);w.run();return new Nft(w,id);}
  upd(method,caller,...a){const r=this.w.update(this.id,method,enc(method,...a),caller);return r.ok?{ok:decode(r.ok)}:r;}
  q(method,caller,...a){const r=this.w.query(this.id,method,enc(method,...a),caller);return r.ok?{ok:decode(r.ok)}:r;}
  qs(list){return this.w.queries(this.id,list.map(([method,caller,...a])=>({method,caller,arg:enc(method,...a)}))).map(r=>r.ok?{ok:decode(r.ok)}:r);}
  upgrade(caller=user('admin')){return this.w.upgrade(this.id,WASM('core_nft'),upgradeArg(),caller);}
}
export class Index extends Nft{
  static install(w,ledger,caller=user('admin')){const id=w.create([caller]);const r=w.install(id,WASM('index_icrc7'),indexInitArg(ledger),caller);if(r.rej)throw new Error('init: '+r.msg);w.run();return new Index(w,id);}
  upgrade(caller=user('admin')){return this.w.upgrade(this.id,WASM('index_icrc7'),indexUpgradeArg(),caller);}
}
