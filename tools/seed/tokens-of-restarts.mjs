// property: Q24
// needs: the last token of a page leaves the account before the next page is asked for
// breaks: the listing starts again from the beginning, so tokens are listed twice and a reader may never finish
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo();for(let i=0;i<4;i++)d.mint(acc('a'));
is('first page',d.of(acc('a'),undefined,2),[1,2]);
is('token 2 leaves',kind(d.xfer('a',acc('b'),2)),'Ok');
is('next page',d.of(acc('a'),2,2),[3,4]);
done();
