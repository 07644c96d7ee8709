// property: L11
// needs: a revocation of all collection approvals of an account that has approved more than one spender
// breaks: the block names one spender only, so a replay of the log leaves the others approved
import {Demo,acc,is,ok,done,kind} from './h.mjs';
const d=new Demo();d.mint(acc('a'));
is('s',kind(d.apprc('a',acc('s'))),'Ok');is('t',kind(d.apprc('a',acc('t'))),'Ok');
is('revoke all',kind(d.revc('a')),'Ok');
is('s is not approved',d.approved(acc('s'),1),false);is('t is not approved',d.approved(acc('t'),1),false);
const b=d.block(d.log()-1);
is('the block is of a revocation',b.type,'37revoke_coll');
ok('and names no spender',!('spender' in b.tx),Object.keys(b.tx));
done();
