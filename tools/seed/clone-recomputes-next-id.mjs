// property: L08
// needs: the newest token burned, then an upgrade, then a mint
// breaks: the id of the burned token is given to the new one
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo();d.mint(acc('a'));d.mint(acc('a'));
const top=Math.max(...d.tokens());
is('burn',kind(d.u('burn_nft','a',BigInt(top))),'Ok');
is('upgrade',d.upgrade(),'');
d.mint(acc('b'));
is('the burned id is not used again',d.tokens().includes(top),false);
is('two tokens',d.tokens().length,2);
done();
