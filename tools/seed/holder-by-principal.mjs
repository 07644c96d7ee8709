// property: L02
// needs: icrc37_transfer_from of a token held in one subaccount by the same principal acting from another subaccount, without an approval
// breaks: an account that neither holds the token nor is approved for it can move it
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo();d.mint(acc('a',1));
is('from the default subaccount',kind(d.xfrom('a',acc('a',1),acc('b'),1)),'Unauthorized');
is('from subaccount 2',kind(d.xfrom('a',acc('a',1),acc('b'),1,{ss:2})),'Unauthorized');
is('balance of its account',d.bal(acc('a',1)),1);
is('from its own',kind(d.xfrom('a',acc('a',1),acc('b'),1,{ss:1})),'Ok');
done();
