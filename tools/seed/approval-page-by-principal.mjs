// property: Q24
// needs: one principal approved with several of its subaccounts, and the listing of them read page by page
// breaks: the pages after the first leave out some of the approvals
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo();d.mint(acc('a'));
const sps=[acc('s'),acc('s',1),acc('s',2),acc('t')];
sps.forEach((s,i)=>is('approve '+i,kind(d.appr('a',s,1)),'Ok'));
sps.forEach((s,i)=>is('approve collection '+i,kind(d.apprc('a',s)),'Ok'));
for(const[name,get]of[['token',p=>d.q('icrc37_get_token_approvals',1n,p,[1n])],['collection',p=>d.q('icrc37_get_collection_approvals',acc('a'),p,[1n])]]){
  const seen=[];let prev=[];
  for(let i=0;i<4;i++){const r=get(prev);if(!r||r.length!==1)break;prev=[r[0]];const s=r[0].approval_info.spender;seen.push(JSON.stringify([s.owner,s.subaccount.map(b=>Buffer.from(b).toString('hex'))]));}
  is(name+': four pages with different spenders',new Set(seen).size,4);
}
done();
