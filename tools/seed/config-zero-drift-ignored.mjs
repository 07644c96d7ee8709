// property: C23
// needs: the permitted drift being set to exactly zero by an update of the collection's settings
// breaks: the update is answered Ok but the old drift stays in force
import {Demo,acc,is,done,kind} from './h.mjs';
const d=new Demo();
const none=Object.fromEntries('description logo supply_cap max_query_batch_size max_update_batch_size max_take_value default_take_value max_memo_size atomic_batch_transfers tx_window permitted_drift max_canister_storage_threshold symbol name collection_metadata'.split(' ').map(k=>[k,[]]));
const set=v=>kind(d.u('update_collection_metadata','admin',{...none,permitted_drift:[v]}));
const S=1000000000n;
is('set to 2 s',set(2n*S),'Ok');const two=d.q('icrc7_permitted_drift');
is('set to 0',set(0n),'Ok');
is('drift',d.q('icrc7_permitted_drift'),[0n]);
d.mint(acc('a'));
is('a transfer stated for later is refused',kind(d.xfer('a',acc('b'),1,{at:d.now()+S+S/2n})),'CreatedInFuture');
done();
