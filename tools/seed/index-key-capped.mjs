// property: X26
// needs: an account, type or token with more than 128 blocks
// breaks: the oldest blocks of a busy account, type or token are no longer listed
// pkgs: core_nft index_icrc7
import {Demo,acc,user,is,done,MS} from './h.mjs';
const d=new Demo();for(let i=0;i<5;i++)d.mint(acc('a'));
let p='a',o='b';for(let k=0;k<28;k++){d.tick();d.n.upd('icrc7_transfer',user(p),[1,2,3,4,5].map(i=>({to:acc(o),token_id:BigInt(i),memo:[],from_subaccount:[],created_at_time:[]})));[p,o]=[o,p];}
is('blocks',d.log(),145);d.index();d.minute(3);is('progress',d.xn(),145);
is('transfers',d.xq(0,200,[{BlockType:'7xfer'}]).length,140);
is('a token',d.xq(0,200,[{TokenId:2n}]).length,29);
is('the first blocks of an account',d.xq(0,3,[{Account:acc('a')}]),[0,1,2]);
done();
