// property: L04
// needs: an owner using two accounts whose subaccounts differ in their first sixteen bytes only
// breaks: an approval for the collection of one account is also one for that of the other
import {Demo,is,done,kind,user} from './h.mjs';
const d=new Demo();const s=new Uint8Array(32);s[0]=9;const far={owner:user('a'),subaccount:[s]},main={owner:user('a'),subaccount:[]},b={owner:user('b'),subaccount:[]};
d.mint(main);d.mint(far);
is('approved',kind(d.u('icrc37_approve_collection','a',[{approval_info:{spender:b,from_subaccount:[s],expires_at:[],memo:[],created_at_time:d.now()+1000000000n}}]).Ok?.[0]?.[0]??null),'Ok');
is('for the token of that account',d.approved(b,2),true);is('not for the other',d.approved(b,1),false);
is('who cannot take it',kind(d.xfrom('b',main,b,1)),'Unauthorized');
is('but that one',kind(d.xfrom('b',far,b,2)),'Ok');
done();
