// property: X28
// needs: a query with a filter whose blocks are no longer in the cache while the ledger does not answer
// breaks: it answers that there are no such blocks
// pkgs: core_nft index_icrc7
import {Demo,acc,is,ok,done,SEC} from './h.mjs';
const d=new Demo();for(let i=0;i<3;i++)d.mint(acc('a'));d.index();d.minute(2);
is('listed',d.xq(0,10,[{BlockType:'7mint'}]),[0,1,2]);
d.w.tick(86400n*SEC);
d.w.policy=m=>m.method==='icrc3_get_blocks'?{rej:4,msg:'unreachable'}:null;
const r=d.xq(0,10,[{BlockType:'7mint'}]);ok('no answer without the ledger',r.rej!==undefined,r);
d.w.policy=null;is('all of them afterwards',d.xq(0,10,[{BlockType:'7mint'}]),[0,1,2]);
done();
