// property: C23
// needs: an update of the maximum page size alone to less than the default one
// breaks: it changes the default page size, which the update did not name
import {Demo,is,done,kind} from './h.mjs';
const d=new Demo({default_take_value:8n,max_take_value:20n});
const none=Object.fromEntries('description logo supply_cap max_query_batch_size max_update_batch_size max_take_value default_take_value max_memo_size atomic_batch_transfers tx_window permitted_drift max_canister_storage_threshold symbol name collection_metadata'.split(' ').map(k=>[k,[]]));
for(const m of[3n,20n]){is('update',kind(d.u('update_collection_metadata','admin',{...none,max_take_value:[m]})),'Ok');
  is('max',d.q('icrc7_max_take_value'),[m]);is('default',d.q('icrc7_default_take_value'),[8]);}
done();
