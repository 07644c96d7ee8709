// property: L10
// needs: a transfer with a memo of no bytes
// breaks: its block has no memo, as if none had been given
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo();d.mint(acc('a'));
is('transfer',kind(d.xfer('a',acc('b'),1,{memo:new Uint8Array(0)})),'Ok');
const b=d.block(1);is('type',b.type,'7xfer');is('memo in the block','memo'in b.tx,true);
is('transfer without',kind(d.xfer('b',acc('a'),1)),'Ok');is('no memo in the block','memo'in d.block(2).tx,false);
done();
