// property: L07
// needs: the token with the highest id has been burned when the next mint is made
// breaks: a mint takes the id after the highest existing token, so the id of a burned token is issued again
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo();
is('mint',await d.mint(acc('a')),{Ok:1});is('mint',d.mint(acc('a')),{Ok:2});
is('burn the newest',kind(d.u('burn_nft','a',2n)),'Ok');
is('next mint',d.mint(acc('b')),{Ok:3});is('burned id stays unused',d.owner(2),null);
done();
