// property: L09
// needs: an approved transfer that fails after its approval was found, and then a correct one
// breaks: a refused transfer uses up the approval of its spender
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo();d.mint(acc('a'));
is('approve',kind(d.appr('a',acc('s'),1)),'Ok');
is('wrong source account',kind(d.xfrom('s',acc('a',2),acc('b'),1)),'Unauthorized');
is('still approved',d.approved(acc('s'),1),true);
is('correct transfer',kind(d.xfrom('s',acc('a'),acc('b'),1)),'Ok');
done();
