// property: X28
// needs: blocks in an archive that does not answer while the index is asked for them
// breaks: a query answers without the archived blocks, as if they did not exist
// pkgs: core_nft index_icrc7
import {Demo,acc,is,ok,done,SEC} from './h.mjs';
const d=new Demo();for(let i=0;i<4;i++)d.mint(acc('a'));d.w.tick(601n*SEC);d.mint(acc('b'));d.index();
d.w.policy=m=>m.method==='icrc3_get_blocks'&&m.to!==d.n.id?{rej:4,msg:'unreachable'}:null;
const r=d.xq(0,10);ok('no answer without the archive',r.rej!==undefined,r);
d.w.policy=null;is('all of them afterwards',d.xq(0,10),[0,1,2,3,4]);d.minute(2);
is('progress',d.xn(),5);is('listed',d.xq(0,10,[{BlockType:'7mint'}]),[0,1,2,3,4]);
done();
