// property: L09
// needs: an approved transfer repeated as a duplicate after the token has come back and was approved again
// breaks: the refused duplicate removes the approvals of the token
import {Demo,acc,is,ok,done,kind,user,MS,SEC} from './h.mjs';
const d=new Demo({tx_window:600000000000n,permitted_drift:600000000000n});d.mint(acc('a'));
is('approve',kind(d.appr('a',acc('s'),1)),'Ok');const at=d.now()+2n*SEC;
const arg=[{spender_subaccount:[],from:acc('a'),to:acc('b'),token_id:1n,memo:[],created_at_time:[at]}];
const go=()=>{d.w.tick(MS);const r=d.n.upd('icrc37_transfer_from',user('s'),arg).ok[0];return r.Ok[0][0]??r.Ok[0];};
is('transfer',kind(go()),'Ok');is('back',kind(d.xfer('b',acc('a'),1)),'Ok');is('approve again',kind(d.appr('a',acc('s'),1)),'Ok');
const r=go();ok('refused',kind(r)!=='Ok',r);is('still approved',d.approved(acc('s'),1),true);
done();
