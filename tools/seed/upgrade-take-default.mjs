// property: D21
// needs: a configured maximum page size that differs from the default page size, and an upgrade
// breaks: after an upgrade the default page size is the maximum page size
import {Demo,acc,is,done} from './h.mjs';
const d=new Demo({max_take_value:50n,default_take_value:2n});
for(let i=0;i<4;i++)d.mint(acc('a'));
is('page before',d.tokens(),[1,2]);is('upgrade',d.upgrade(),'');
is('default page size',d.q('icrc7_default_take_value'),[2]);is('page after',d.tokens(),[1,2]);
done();
