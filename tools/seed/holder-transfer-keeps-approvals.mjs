// property: L03
// needs: the owner moves an approved token with icrc37_transfer_from himself, then the old spender tries it
// breaks: approvals survive the change of owner, so a spender of the previous owner can take the token from the new one
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo();d.mint(acc('a'));
is('approve',kind(d.appr('a',acc('s'),1)),'Ok');
is('owner moves it',kind(d.xfrom('a',acc('a'),acc('b'),1)),'Ok');
is('approval is gone',d.approved(acc('s'),1),false);
is('old spender is refused',kind(d.xfrom('s',acc('b'),acc('s'),1)),'Unauthorized');
done();
