// property: L06
// needs: a collection configured with a revoke limit that differs from its limit of approvals
// breaks: a batch of collection revocations within max_revoke_approvals is refused (or one above it accepted)
import {Demo,acc,is,done,user} from './h.mjs';
const d=new Demo({max_approvals:2n,max_revoke:4n});d.mint(acc('a'));
const rv=sp=>({spender:[acc(sp)],from_subaccount:[],memo:[],created_at_time:[]});
const send=n=>d.u('icrc37_revoke_collection_approvals','a',['s','t','u','v','w'].slice(0,n).map(rv));
is('approve s',!!d.apprc('a',acc('s')).Ok,true);
const r=send(3);
is('three revocations are answered one by one',Array.isArray(r.Ok??r)&&!r.rej?(r.Ok??r).length:JSON.stringify(r,(k,v)=>typeof v==='bigint'?Number(v):v),3);
done();
