// property: X27
// needs: a descending query all of whose blocks are in the cache
// breaks: the answer to a descending query is in the wrong order once its blocks are cached, so that the same query gives different answers
// pkgs: core_nft index_icrc7
import {Demo,acc,is,done} from './h.mjs';
const d=new Demo();for(let i=0;i<5;i++)d.mint(acc('a'));d.index();
is('fetched',d.xq(0,0,[],true),[]);d.minute();d.w.tick(86400000000000n);
is('cold',d.xq(0,4,[{Account:acc('a')}],true),[3,2,1,0]);
is('warm',d.xq(0,4,[{Account:acc('a')}],true),[3,2,1,0]);
is('warm, ascending',d.xq(0,4),[0,1,2,3]);
done();
