// property: X27
// needs: a query with two filters, the second of which lists at least two blocks
// breaks: queries with several filters leave out most of the matching blocks
// pkgs: core_nft index_icrc7
import {Demo,acc,user,is,done} from './h.mjs';
const d=new Demo();d.mint(acc('a'));d.mint(acc('a'));d.xfer('a',acc('b'),1);d.xfer('b',acc('a'),1);d.xfer('a',acc('b'),2);d.xfer('a',acc('b'),1);d.index();d.minute(2);
const T=v=>({BlockType:v}),K=i=>({TokenId:BigInt(i)}),P=p=>({Account:acc(p)});
is('one filter',d.xq(0,20,[P('b')]),[2,3,4,5]);
is('type and token',d.xq(0,20,[T('7xfer'),K(1)]),[2,3,5]);
is('account and type',d.xq(0,20,[P('a'),T('7mint')]),[0,1]);
is('all three, from the end',d.xq(0,20,[P('b'),T('7xfer'),K(1)],true),[5,3,2]);
done();
