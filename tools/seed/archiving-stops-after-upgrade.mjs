// property: L12
// needs: an upgrade of a ledger that has archived blocks, and then the time after which blocks are moved to an archive
// breaks: no block is ever archived again after the upgrade
import {Demo,acc,is,ok,done,kind,SEC} from './h.mjs';
const d=new Demo();d.mint(acc('a'));d.mint(acc('b'));
const wait=()=>{for(let i=0;i<12;i++){d.w.tick(300n*SEC);d.w.run();}};
const archived=()=>d.q('icrc3_get_blocks',[{start:0n,length:10n}]).archived_blocks.flatMap(a=>a.args).reduce((k,a)=>k+Number(a.length),0);
wait();const before=archived();
ok('the first blocks are in an archive',before>0,before);
is('upgrade',d.upgrade(),'');
for(const p of['c','d','e'])d.mint(acc(p));const n=d.log();
wait();
is('log is as long as before',d.log(),n);
ok('later blocks follow',archived()>before,archived());
done();
