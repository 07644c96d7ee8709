// property: L04
// needs: a collection approval given again with an earlier expiry than before
// breaks: the approval lasts until the earlier one's expiry
import {Demo,acc,is,done,kind,SEC} from './h.mjs';
const d=new Demo();d.mint(acc('a'));d.mint(acc('a'));const t=d.now();
is('long',kind(d.apprc('a',acc('s'),{exp:t+1000n*SEC})),'Ok');is('short',kind(d.apprc('a',acc('s'),{exp:t+20n*SEC})),'Ok');
is('approved',d.approved(acc('s'),1),true);is('used',kind(d.xfrom('s',acc('a'),acc('b'),1)),'Ok');
d.tick(30n*SEC);is('no longer approved',d.approved(acc('s'),2),false);
is('transfer',kind(d.xfrom('s',acc('a'),acc('b'),2)),'Unauthorized');
done();
