// property: X29
// needs: a consent message for a revocation of several tokens of which some are revoked for every spender
// breaks: the message announces fewer tokens than the call it describes will touch
import {Demo,acc,is,ok,done,user,enc} from './h.mjs';
const d=new Demo();
const rv=(t,sp)=>({spender:sp?[acc(sp)]:[],from_subaccount:[],token_id:BigInt(t),memo:[],created_at_time:[]});
const ask=list=>{const r=d.u('icrc21_canister_call_consent_message','a',{method:'icrc37_revoke_token_approvals',arg:enc('icrc37_revoke_token_approvals',list),user_preferences:{metadata:{language:'en',utc_offset_minutes:[]},device_spec:[]}});return JSON.stringify(r,(k,v)=>typeof v==='bigint'?Number(v):v);};
const all=ask([rv(1,'s'),rv(2,'s'),rv(3,'s')]),some=ask([rv(1,'s'),rv(2),rv(3)]);
console.log(all);console.log(some);
const nums=s=>s.match(/\d+/g)?.filter(x=>x==='3').length??0;
ok('three tokens with a spender each',nums(all)>0,all);
ok('three tokens, two for every spender',nums(some)>0,some);
done();
