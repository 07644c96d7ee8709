// property: I30
// needs: an installation whose default page size is above its maximum one
// breaks: the ledger reports another default page size than it was installed with
import {Demo,is,done,kind} from './h.mjs';
const d=new Demo({default_take_value:8n,max_take_value:3n});
is('default',d.q('icrc7_default_take_value'),[8]);is('max',d.q('icrc7_max_take_value'),[3]);
const none=Object.fromEntries('description logo supply_cap max_query_batch_size max_update_batch_size max_take_value default_take_value max_memo_size atomic_batch_transfers tx_window permitted_drift max_canister_storage_threshold symbol name collection_metadata'.split(' ').map(k=>[k,[]]));
is('update',kind(d.u('update_collection_metadata','admin',{...none,max_take_value:[20n]})),'Ok');
is('default afterwards',d.q('icrc7_default_take_value'),[8]);
done();
