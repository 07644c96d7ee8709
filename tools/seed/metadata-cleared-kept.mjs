// property: M22
// needs: an update that replaces the metadata of a token by an empty one
// breaks: the old metadata stays although the update is answered Ok
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo();d.mint(acc('a'),{name:{Text:'one'}});
is('set',d.meta(1),[['name','one']]);
is('clear',kind(d.u('update_nft_metadata','admin',{token_id:1n,metadata:[]})),'Ok');
is('cleared',d.meta(1),[]);
done();
