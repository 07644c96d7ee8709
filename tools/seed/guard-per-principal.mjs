// property: G17
// needs: a management call of another principal while an upload initiation waits for a storage canister
// breaks: management calls exclude each other only when they come from the same principal
import {Demo,acc,is,done,kind,sha256hex} from './h.mjs';
const d=new Demo();const data=Buffer.from('hello');
is('grant',kind(d.grant('m2','Minting')),'Ok');
const id=d.send('init_upload','admin',{file_path:'/a',file_hash:sha256hex(data),file_size:5n,chunk_size:[]});
for(let k=0;k<50&&!d.w.pending.some(m=>m.from===d.n.id);k++){const j=d.w.pending.findIndex(m=>m.to===d.n.id);if(j<0)break;d.w.deliver(j);}
for(const m of d.w.pending)m.held=true;
is('waiting',d.w.pending.length>0,true);
const mint=()=>d.u('mint','m2',{mint_requests:[{token_owner:acc('a'),memo:[],metadata:[]}]});
is('a mint of another principal meanwhile',kind(mint()),'ConcurrentManagementCall');
for(const m of d.w.pending)m.held=false;d.w.run();
is('a mint afterwards',kind(mint()),'Ok');
done();
