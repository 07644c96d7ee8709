// property: X28
// needs: an upgrade of the index while a round is waiting for the ledger
// breaks: the lock of the round that the upgrade cut off is kept for ever, and no block is indexed any more
// pkgs: core_nft index_icrc7
import {Demo,acc,is,done,SEC} from './h.mjs';
const d=new Demo();d.mint(acc('a'));d.index();d.minute();is('progress',d.xn(),1);
d.mint(acc('b'));d.mint(acc('c'));
d.w.policy=m=>m.method==='icrc3_get_blocks'?{hold:1}:null;d.minute();d.w.policy=null;
const r=d.x.upgrade();is('upgraded',r.rej,undefined);for(const m of d.w.pending)m.held=false;d.w.run();
d.minute(3);is('progress',d.xn(),3);is('listed',d.xq(0,9,[{BlockType:'7mint'}]),[0,1,2]);is('of b',d.xq(0,9,[{Account:acc('b')}]),[1]);
done();
