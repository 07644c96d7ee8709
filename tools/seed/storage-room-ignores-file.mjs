// property: U19
// needs: a storage canister with some room left, but not enough for the file
// breaks: the file is put into a storage canister that has no room for it
import {Demo,is,done,kind,user} from './h.mjs';
import {encode,T} from './emu/candid.mjs';
const d=new Demo();const data=Buffer.from('hello');const subs=()=>d.n.q('get_all_storage_subcanisters',user('admin')).ok[0].length;
const room=b=>{d.w.policy=m=>m.method==='get_storage_size'&&m.from===d.n.id?{ok:encode([T.nat],[(500n<<30n)-b])}:null;};
is('first file',kind(d.iu('admin','/a',data)),'Ok');is('one storage canister',subs(),1);
room(5n);is('second file',kind(d.iu('admin','/b',data)),'Ok');is('which just fits',subs(),1);
room(4n);is('third file',kind(d.iu('admin','/c',data)),'Ok');d.w.policy=null;
is('which does not',subs(),2);
done();
