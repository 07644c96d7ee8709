// property: U19
// needs: the storage canister cannot be reached while an upload is cancelled
// breaks: the ledger forgets the upload although cancelling failed, so that it can neither be finished nor cancelled
import {Demo,is,done,kind} from './h.mjs';
const d=new Demo();const data=Buffer.from('hello');
is('init',kind(d.iu('admin','/a',data)),'Ok');is('chunk',kind(d.sc('admin','/a',0,data)),'Ok');
d.w.policy=m=>m.method==='cancel_upload'&&m.from===d.n.id?{rej:4,msg:'unreachable'}:null;
is('cancel fails',kind(d.cu('admin','/a')),'StorageCanisterError');d.w.policy=null;
is('state as before',d.ust('/a'),'InProgress');
is('it can still be finished',kind(d.fu('admin','/a')),'Ok');
done();
