// property: B25
// needs: atomic_batch_transfers configured and a batch in which an item before another one fails
// breaks: items after a failing one are not carried out and are answered with nothing
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo({atomic_batch_transfers:true});for(let i=0;i<2;i++)d.mint(acc('a'));
const t=id=>({to:acc('b'),token_id:id,memo:[],from_subaccount:[],created_at_time:[]});
const r=d.u('icrc7_transfer','a',[t(1n),t(9n),t(2n)]);
is('one answer for each item',r.map(x=>kind(x[0]??x)),['Ok','NonExistingTokenId','Ok']);
is('owner of the last',d.bal(acc('b')),2);
done();
