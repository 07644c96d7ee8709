// property: L08
// needs: a token that its owner holds in a subaccount
// breaks: its owner cannot burn it
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo();d.mint(acc('a',7));d.mint(acc('a'));
is('not by others',kind(d.u('burn_nft','b',1n)),'NotTokenOwner');
is('burn',kind(d.u('burn_nft','a',1n)),'Ok');is('gone',d.owner(1),null);is('burn of the other',kind(d.u('burn_nft','a',2n)),'Ok');
done();
