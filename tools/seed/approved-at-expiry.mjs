// property: L05
// needs: a token approval looked at in the very nanosecond at which it expires
// breaks: icrc37_is_approved still answers yes when icrc37_transfer_from already refuses the spender
import {Demo,acc,is,ok,done,kind,user,MS,SEC} from './h.mjs';
const d=new Demo();d.mint(acc('a'));
const exp=d.now()+10n*SEC;
is('approve until then',kind(d.appr('a',acc('s'),1,{exp})),'Ok');
is('approved before',d.approved(acc('s'),1),true);
d.tick(exp-d.now());is('clock stands at the expiry',d.now()===exp,true);
is('approved at the expiry',d.approved(acc('s'),1),false);
d.w.tick(1n);is('approved after',d.approved(acc('s'),1),false);
is('transfer',kind(d.xfrom('s',acc('a'),acc('b'),1)),'Unauthorized');
done();
