// property: L01
// needs: a transfer whose from_subaccount is not the one the token lies in
// breaks: the balance of the sending account still counts the token that was sent
import {Demo,acc,is,done,kind,sub} from './h.mjs';
const d=new Demo();d.mint(acc('a'));d.mint(acc('a'));
const r=d.u('icrc7_transfer','a',[{to:acc('b'),token_id:1n,memo:[],from_subaccount:[sub(3)],created_at_time:[]}]);
const moved=kind(r[0][0]??r[0])==='Ok';
is('balance of the sender',d.bal(acc('a')),moved?1:2);is('balance of the recipient',d.bal(acc('b')),moved?1:0);
is('list of the sender',d.of(acc('a')).length,moved?1:2);
done();
