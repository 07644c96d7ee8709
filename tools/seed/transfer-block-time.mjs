// property: L10
// needs: a transfer whose stated time lies before the time of the ledger
// breaks: the block records the time of the ledger instead of the stated one (and a repeated transfer is not recognised as the same one)
import {Demo,acc,is,done,kind,SEC} from './h.mjs';
const d=new Demo();d.mint(acc('a'));
const at=d.now()-2n*SEC;
is('transfer',kind(d.xfer('a',acc('b'),1,{at})),'Ok');
is('time in the block',d.block(1).tx.created_at_time,at);
done();
