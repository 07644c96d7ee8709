// property: B25
// needs: a batch of transfers in which a later item depends on an earlier one
// breaks: the items are executed from the last to the first, so that the batch has another outcome than its items in their order
import {Demo,acc,is,done,user,kind} from './h.mjs';
const d=new Demo();d.mint(acc('a'));
const it=to=>({to:acc(to),token_id:1n,memo:[],from_subaccount:[],created_at_time:[]});
const r=d.u('icrc7_transfer','a',[it('b'),it('c')]);
is('answers',r.map(x=>kind(x[0]??x)),['Ok','InvalidRecipient']);
is('b holds it',[d.bal(acc('b')),d.bal(acc('c'))],[1,0]);
done();
