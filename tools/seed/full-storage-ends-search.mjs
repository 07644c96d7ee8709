// property: U19
// needs: two storage canisters, of which the first has no room left for the file
// breaks: the second one is not asked; a new storage canister is created for every such upload
import {Demo,is,done,kind,user} from './h.mjs';
import {encode,T} from './emu/candid.mjs';
const d=new Demo();const data=Buffer.from('hello');const subs=()=>d.n.q('get_all_storage_subcanisters',user('admin')).ok[0].length;
// the first k storage canisters asked say that they are full
const full=k=>{d.w.policy=m=>m.method==='get_storage_size'&&m.from===d.n.id&&k-->0?{ok:encode([T.nat],[500n<<30n])}:null;};
is('first file',kind(d.iu('admin','/a',data)),'Ok');is('one storage canister',subs(),1);
full(1);is('second file',kind(d.iu('admin','/b',data)),'Ok');is('two storage canisters',subs(),2);
full(1);is('third file',kind(d.iu('admin','/c',data)),'Ok');d.w.policy=null;
is('the second one has room',subs(),2);
is('chunk',kind(d.sc('admin','/c',0,data)),'Ok');is('finished',kind(d.fu('admin','/c')),'Ok');
done();
