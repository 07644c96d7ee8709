// property: G17
// needs: another management call arriving while an upload initiation waits for a storage canister
// breaks: the upload initiation does not exclude other management calls
import {Demo,acc,is,done,kind,sha256hex,decode} from './h.mjs';
const d=new Demo();const data=Buffer.from('hello');
const id=d.send('init_upload','admin',{file_path:'/a',file_hash:sha256hex(data),file_size:5n,chunk_size:[]});
// carried out up to the first call of another canister
const i=d.w.pending.findIndex(m=>m.type==='request'||m.type==='ingress');if(i>=0)d.w.deliver(i);
for(let k=0;k<50&&!d.w.pending.some(m=>m.from===d.n.id);k++){const j=d.w.pending.findIndex(m=>m.to===d.n.id);if(j<0)break;d.w.deliver(j);}
for(const m of d.w.pending)m.held=true;
is('waiting',d.w.pending.length>0,true);
is('a mint meanwhile',kind(d.mint(acc('a'))),'ConcurrentManagementCall');
for(const m of d.w.pending)m.held=false;d.w.run();
is('a mint afterwards',kind(d.mint(acc('a'))),'Ok');
done();
