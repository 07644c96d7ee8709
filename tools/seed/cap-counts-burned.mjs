// property: L07
// needs: a token burned in a collection with a supply cap, and mints up to the cap
// breaks: burned tokens still count: the mint that fills the collection is refused
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo({supply_cap:2n});const mint=()=>kind(d.mint(acc('a')));
is('first',mint(),'Ok');is('second',mint(),'Ok');is('third',mint(),'ExceedMaxAllowedSupplyCap');
is('burn',kind(d.u('burn_nft','a',1n)),'Ok');is('room for one',mint(),'Ok');is('full',mint(),'ExceedMaxAllowedSupplyCap');
done();
