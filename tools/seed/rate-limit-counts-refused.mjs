// property: T15
// needs: more than five calls for one token within 60 ms, and another one after the first five have left the window
// breaks: refused calls use up budget too, so a token stays refused although only few calls were served in the window
import {Demo,acc,ok,is,done,MS,user} from './h.mjs';
const d=new Demo();d.mint(acc('a'));d.tick();
const go=(ms)=>{d.tick(BigInt(ms)*MS);const r=d.n.upd('icrc7_transfer',user('z'),[{to:acc('b'),token_id:1n,memo:[],from_subaccount:[],created_at_time:[]}]).ok[0];const e=(r[0][0]??r[0]).Err;return typeof e==='object'&&e!==null&&'GenericError'in e&&/Rate/.test(e.GenericError.message)?'limited':'served';};
const l=[];for(let i=0;i<5;i++)l.push(go(1));is('five are served',l,Array(5).fill('served'));
const m=[];for(let i=0;i<8;i++)m.push(go(6));is("then refused",m,Array(8).fill('limited'));
is('served as the window slides',go(20),'served');
done();
