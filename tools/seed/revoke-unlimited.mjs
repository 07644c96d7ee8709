// property: T15
// needs: batches of revocations whose last item names another token than their first, sent within the rate limit's window
// breaks: the limit on operations on the first item's token does not count these batches
import {Demo,acc,is,done,kind,user} from './h.mjs';
const d=new Demo();d.mint(acc('a'));for(let i=0;i<9;i++)d.mint(acc('a'));
const rv=t=>({spender:[],from_subaccount:[],token_id:BigInt(t),memo:[],created_at_time:[]});
d.tick();
const out=[];
for(let i=0;i<7;i++){const r=d.n.upd('icrc37_revoke_token_approvals',user('a'),[rv(1),rv(2+i)]);const x=r.ok?r.ok[0]:{rej:r.msg};out.push(JSON.stringify(x,(k,v)=>typeof v==='bigint'?Number(v):v).slice(0,160));}
const seen=new Set(out);console.log(out.join('\n'));
is('the sixth call on token 1 is answered otherwise than the fifth',out[5]!==out[4],true);
done();
