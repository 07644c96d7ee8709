// property: M22
// needs: more than 256 tokens, two of which have ids that agree in their lowest byte
// breaks: such tokens share their metadata and their approvals
import {Demo,is,done,acc,SEC} from './h.mjs';
const d=new Demo();
for(let i=0;i<52;i++){d.tick(11n*SEC);const r=d.u('mint','admin',{mint_requests:[1,2,3,4,5].map(j=>({token_owner:acc('a'),memo:[],metadata:[{_0:'n',_1:{Nat:BigInt(i*5+j)}}]}))});if(!r.Ok)is('mint',r,'Ok');}
is('metadata of 1',d.meta(1),[['n',1]]);is('metadata of 257',d.meta(257),[['n',257]]);is('metadata of 24',d.meta(24),[['n',24]]);
d.appr('a',acc('b'),257);is('approved for 257',d.approved(acc('b'),257),true);is('not for 1',d.approved(acc('b'),1),false);
done();
