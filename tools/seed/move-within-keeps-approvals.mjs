// property: L03
// needs: icrc37_transfer_from of an approved token between two subaccounts of one principal
// breaks: the approvals given by the old account stay in force for the new one
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo();d.mint(acc('a',1));
is('approve',kind(d.appr('a',acc('s'),1,{fs:1})),'Ok');
is('move',kind(d.xfrom('a',acc('a',1),acc('a',2),1,{ss:1})),'Ok');
is('approval is gone',d.approved(acc('s'),1),false);
is('the old spender is refused',kind(d.xfrom('s',acc('a',2),acc('s'),1)),'Unauthorized');
done();
