// property: U18
// needs: someone who may upload but not manage permissions, turning to the storage canister instead of the ledger
// breaks: he can begin and cancel uploads behind the ledger's back, and take the place of a file that the ledger is about to store
import {Demo,is,ok,done,kind,user,enc} from './h.mjs';
const d=new Demo({permissions:{[user('admin')]:['Minting','ManageAuthorities','UpdateUploads','ReadUploads'],[user('b')]:['UpdateUploads']}});const data=Buffer.from('hello');
is('init',kind(d.iu('admin','/a',data)),'Ok');is('chunk',kind(d.sc('admin','/a',0,data)),'Ok');
const st=d.n.q('get_all_storage_subcanisters',user('admin')).ok[0][0];const id=typeof st==='string'?st:String(st);
const r=d.w.update(id,'cancel_upload',enc('cancel_upload',{file_path:'/a'}),user('b'));
ok('refused',!!r.rej);
is('finished',kind(d.fu('admin','/a')),'Ok');
done();
