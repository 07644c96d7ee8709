// Writes properties.jsonl (kept here in a readable form).
import fs from 'fs';
const C='src/core_nft/src/', I='src/index_icrc7/src/';
const P=[];
function p(id,title,statement,over,text,why,files,state,mech,observe){P.push({id,title,statement,quantifier:{over,text},why_tests_cant:why,anchors:{files,state,mechanism:mech,observe_at:observe,hook_needed:null}});}
const m=(name,where)=>({name,where});const s=(name,meaning,where)=>({name,meaning,where});
const UT='The in-tree unit tests only cover value conversions and block-id grouping; none drives the ledger through histories.';
p('L01','All ownership views describe one and the same ownership relation',
 'After any history, the owner lookup, the per-account token list, the per-account balance, the global token list and the total supply all agree: every existing token has exactly one owning account, it is listed exactly once under that account and under no other, a balance is the length of that list, and the total supply is the number of existing tokens. Ownership changes only as the result of a successful mint, transfer, approved transfer or burn, and then exactly as that operation says.',
 ['histories','inputs'],'all sequences of mints, transfers, approved transfers, burns, approvals and failed calls, over several principals and subaccounts',
 UT+' Two separate structures (by token, by owner) are updated at several sites, and a mismatch only shows on particular orders such as burn after transfer or move between subaccounts.',
 [C+'state.rs',C+'updates/icrc7.rs',C+'updates/icrc37.rs',C+'updates/management.rs',C+'queries/icrc7.rs'],
 [s('tokens_list','token id -> token incl. owner',C+'state.rs'),s('tokens_list_by_owner','account -> token ids',C+'state.rs')],
 [m('update_token_owner / owned_tokens / tokens_balance_of',C+'state.rs'),m('burn_nft',C+'updates/management.rs')],
 ['icrc7_owner_of','icrc7_balance_of','icrc7_tokens_of','icrc7_tokens','icrc7_total_supply']);
p('L02','Only the owner or a currently approved spender can move a token',
 'A token moves only by a call of the principal that owns it, or by an approved-transfer call whose spender is the owning account itself or holds an unexpired token-level or collection-level approval granted by the current owning account, and whose stated source account is the current owner. Every other attempt, and every attempt to send a token to the anonymous principal or to the account that already holds it, is refused and changes nothing.',
 ['histories','inputs'],'all callers, subaccounts, recipients and all histories of grants, revocations, expiries, transfers and burns before the attempt',
 UT+' Authority depends on the whole history of approvals and ownership and on time.',
 [C+'updates/icrc7.rs',C+'updates/icrc37.rs',C+'state.rs'],[s('approvals','token and collection approvals',C+'types/icrc37.rs')],
 [m('transfer_nft',C+'updates/icrc7.rs'),m('transfer_from',C+'updates/icrc37.rs')],['icrc7_transfer','icrc37_transfer_from','icrc7_owner_of']);
p('L03','A token approval lives exactly until revoke, expiry or ownership change',
 'A token-level approval can be created only by the account owning the token, is reported and usable from then until it is revoked by the owner, replaced for the same spender, its expiry time is reached, or the token is transferred or burned. After any change of owner no approval given by a previous owner is reported or usable; approvals of other tokens and of other spenders are unaffected by any of this.',
 ['histories','inputs'],'all histories of approvals, revocations, transfers, approved transfers and burns, with all expiry positions relative to the clock',
 UT+' A stale approval only matters after a further ownership change.',
 [C+'updates/icrc37.rs',C+'updates/icrc7.rs',C+'updates/management.rs',C+'queries/icrc37.rs'],[s('token_approvals','stable map token -> approvals',C+'types/icrc37.rs')],
 [m('approve_token/revoke_token_approvals/transfer_from',C+'updates/icrc37.rs')],['icrc37_get_token_approvals','icrc37_is_approved','icrc37_transfer_from']);
p('L04','A collection approval covers exactly the granting account, until it ends',
 'A collection-level approval lets its spender move any token, including one acquired later, owned by exactly the granting account, and nothing owned by any other account or subaccount. It lasts until that account revokes it, it expires, or the account has given its last token away through an approved transfer; transfers that leave the account with tokens and operations by other accounts do not end it.',
 ['histories','inputs'],'all histories over several principals, subaccounts and spenders, including owners that lose all or part of their tokens',
 UT+' The interesting cases need several tokens and several accounts of one principal.',
 [C+'updates/icrc37.rs',C+'queries/icrc37.rs'],[s('collection_approvals','stable map account -> approvals',C+'types/icrc37.rs')],
 [m('approve_collection/revoke_collection_approvals/transfer_from',C+'updates/icrc37.rs')],['icrc37_get_collection_approvals','icrc37_transfer_from']);
p('L05','Approval queries agree with what an approved transfer would do',
 'Asking whether a spender is approved for a token answers true exactly when an approved transfer of that token from its current owner by that spender would be authorised at that moment. The approval listings contain exactly the live grants of the token or account, with the spender, subaccount, memo and expiry that were granted.',
 ['histories','inputs'],'all reachable approval states, spenders, subaccounts and clock positions',
 UT+' Query code re-implements the authorisation rule separately from the transfer path.',
 [C+'queries/icrc37.rs',C+'updates/icrc37.rs'],[],[m('icrc37_is_approved',C+'queries/icrc37.rs'),m('transfer_from authorisation',C+'updates/icrc37.rs')],['icrc37_is_approved','icrc37_get_token_approvals','icrc37_get_collection_approvals','icrc37_transfer_from']);
p('L06','Approval limits bound what can be stored and revoked',
 'No token and no account ever carries more approvals than the configured maximum, and a grant that would exceed it is refused without effect. A revocation call never revokes more entries than the configured maximum, and a revocation that names a spender revokes that spender only, one that names none revokes all approvals of that token or account; revoking something that does not exist is an error.',
 ['histories','inputs','configurations'],'all limits, numbers of spenders and histories of grants and revocations',
 UT+' Limits are only reached in particular configurations.',
 [C+'updates/icrc37.rs',C+'types/icrc37.rs'],[s('approval_init','configured maxima',C+'types/icrc37.rs')],[m('approve_token/approve_collection/revoke_*',C+'updates/icrc37.rs')],['icrc37_approve_tokens','icrc37_approve_collection','icrc37_revoke_token_approvals','icrc37_revoke_collection_approvals','icrc37_max_approvals_per_token_or_collection','icrc37_max_revoke_approvals']);
p('L07','Minting gives fresh ids, respects the supply cap and is all-or-nothing',
 'A successful mint creates exactly the requested tokens, in order, with consecutive ids never used before (not even by burned tokens), each with the requested owner and metadata, and returns the first id. Mints never take the supply above the configured cap, and a mint that fails for any reason creates no token, no metadata and no log entry, and uses up no id.',
 ['histories','inputs','configurations'],'all batch sizes, caps, interleavings with burns and upgrades, and failures at any item of the batch',
 UT+' Id reuse needs mint after burn; partial mints need a failure in the middle of a batch.',
 [C+'updates/management.rs',C+'state.rs'],[s('last_token_id','next id',C+'state.rs'),s('supply_cap','cap',C+'state.rs')],[m('mint',C+'updates/management.rs')],['mint','icrc7_tokens','icrc7_token_metadata','icrc7_total_supply']);
p('L08','A burned token is gone for good',
 'Only the owning principal can burn a token. From then on the token has no owner, no metadata is shown for it, it is in no list or balance, carries no approvals, cannot be transferred, approved, revoked or updated, and its id is never issued again.',
 ['histories'],'all histories before and after the burn, including approvals outstanding at the burn and mints and upgrades after it',
 UT+' Burn has no unit test; leftovers only show in views other than the owner lookup.',
 [C+'updates/management.rs',C+'state.rs'],[],[m('burn_nft',C+'updates/management.rs')],['burn_nft','icrc7_owner_of','icrc7_tokens_of','icrc7_balance_of','icrc37_get_token_approvals']);
p('L09','A failed or rejected operation leaves no trace',
 'Whenever a state-changing call, or one item of a batch, answers with an error or is rejected, every observable of the ledger (owners, balances, approvals, metadata, configuration, permissions, log content and length) is the same as if that call or item had never been made.',
 ['inputs','histories'],'all operations, all ways in which they can fail, in all reachable states',
 UT+' Failures after a partial update are only visible by comparing the complete observable state.',
 [C+'updates/icrc7.rs',C+'updates/icrc37.rs',C+'updates/management.rs'],[],[m('validation before mutation; log append before mutation',C+'updates/icrc37.rs')],['all queries before and after']);
p('L10','Every successful change is logged by exactly one faithful block',
 'Each successful item of a mint, transfer, approved transfer, burn, metadata update, approval or revocation appends exactly one block, and nothing else appends any. The block has the type of that operation and records the token, the parties (as principals), the memo, the expiry, the time the caller stated (or else the ledger time) and, where the operation has them, the metadata, as they were in the call.',
 ['histories','inputs'],'all operations and batches, all argument combinations of optional fields, parties, memos and times',
 UT+' The blocks are built field by field in a dozen places; nothing compares them to the call.',
 [C+'updates/icrc7.rs',C+'updates/icrc37.rs',C+'updates/management.rs','src/core_nft/src/types/icrc3.rs'],[s('icrc3 log','transaction log',C+'state.rs')],[m('icrc3_add_transaction at each operation',C+'updates/icrc37.rs')],['icrc3_get_blocks']);
p('L11','Replaying the log gives the ledger state',
 'Starting from nothing and applying the logged blocks in order by their type yields, for every token, exactly its current owning principal (or its absence) and its current metadata updates, and yields the number of existing tokens. In particular no block is logged for a change that did not happen and no ownership change happens without a block.',
 ['histories'],'all histories of operations, failures, throttling and upgrades',
 UT+' Requires reading the whole log back after arbitrary histories.',
 [C+'updates/icrc7.rs',C+'updates/icrc37.rs',C+'updates/management.rs'],[],[m('log append and state update in one message',C+'updates/management.rs')],['icrc3_get_blocks','icrc7_owner_of']);
p('L12','The log is append-only, gap-free, hash-linked and never loses a block',
 'Block ids are consecutive from zero, the log length is the number of blocks ever logged, a block once returned is returned unchanged ever after, and each block links to the hash of its predecessor and gives the log a tip of its own. This stays true across upgrades and across and during archiving, whatever requests to the archive fail: a block is always obtainable either from the ledger or from the archive the ledger points to for that id.',
 ['histories','schedules','fault_sequences'],'all histories with upgrades, archiving rounds and requested ranges',
 UT+' Archiving and upgrades are not reached by any test that runs here.',
 [C+'queries/icrc3.rs',C+'state.rs',C+'lifecycle/post_upgrade.rs',C+'lifecycle/init.rs'],[],[m('icrc3 state carried in the runtime state',C+'state.rs')],['icrc3_get_blocks','icrc3_get_archives','icrc3_get_tip_certificate']);
p('T13','Caller-stated times are accepted only inside the allowed window',
 'A transaction whose stated creation time lies more than the permitted drift in the future is refused as created in the future, and one older than the transaction window (plus, for transfers by the owner, the drift) is refused as too old; a time inside the window, and an absent time, is never refused for its time. The limits are the configured ones, or 10 seconds and 50 milliseconds when not configured.',
 ['inputs','configurations','histories'],'all stated times around both limits, all operations that accept one, all configurations of the limits',
 UT+' Off-by-one and unit errors only show at the limits of the window.',
 [C+'updates/icrc7.rs',C+'updates/icrc37.rs','src/core_nft/src/types/icrc7.rs'],[s('tx_window, permitted_drift','limits',C+'state.rs')],[m('created_at_time checks',C+'updates/icrc7.rs')],['icrc7_transfer','icrc37_approve_tokens','icrc37_approve_collection','icrc37_revoke_token_approvals','icrc37_revoke_collection_approvals','icrc37_transfer_from']);
p('T14','A duplicate transaction is never applied twice',
 'Submitting again the same transaction (same operation, parties, token, memo, expiry and stated time) while the ledger still has the first in its deduplication memory is answered with an error (the duplicate error, where the call has one) and changes nothing. Transactions that differ in any of these, the parties being principals, are never treated as duplicates.',
 ['histories','inputs','schedules'],'all operations, resubmission distances in time and number of intervening transactions, including return transfers that make the repeated call valid again',
 UT+' Needs a resubmission that would succeed if it were not recognised.',
 [C+'updates/icrc7.rs',C+'updates/icrc37.rs',C+'lifecycle/init.rs'],[],[m('created_at_time handed to the log',C+'updates/icrc7.rs'),m('Duplicate mapping',C+'updates/icrc7.rs')],['icrc7_transfer','icrc37_transfer_from','icrc37_approve_tokens','icrc3_get_blocks']);
p('T15','Per-token rate limiting refuses the excess and only the excess',
 'Within any 60 milliseconds at most five owner-transfer, approval, revocation and approved-transfer requests naming the same token are served (collection-level requests share one such budget, a batch of token revocations counts once, for its first token); every further one is refused with a generic error and no effect. Requests inside the budget are never refused by this limit, and a token becomes usable again as the window slides.',
 ['histories','schedules','inputs'],'all burst shapes and spacings, over several tokens and operations',
 UT+' Rate limiting depends on the timing of a whole sequence of calls.',
 [C+'guards.rs',C+'updates/icrc7.rs',C+'updates/icrc37.rs'],[s('sliding_window_guards','recent calls per token',C+'state.rs')],[m('GuardSlidingWindow / acquire',C+'guards.rs')],['icrc7_transfer','icrc37_*']);
p('G16','Privileged calls work exactly for holders of the permission',
 'Each privileged call (mint, token metadata update, collection configuration, upload, upload inspection, permission administration) is served exactly if the caller currently holds the permission for it, and is otherwise rejected without effect. Permissions change only by the initial assignment and by grants and revocations made by holders of the authority-management permission, each affecting exactly the named principal and permission, and the permission queries report exactly the current assignment.',
 ['histories','inputs'],'all callers, permissions and histories of grants and revocations (incl. repeated grants, self-revocation) and upgrades',
 UT+' Every entry point has its own guard; a wrong one is silent until an unauthorised caller uses it.',
 [C+'guards.rs',C+'types/permissions.rs',C+'updates/management.rs'],[s('permissions','principal -> permissions',C+'types/permissions.rs')],[m('caller_has_permission guards',C+'guards.rs')],['mint','update_nft_metadata','update_*','init_upload','store_chunk','finalize_upload','cancel_upload','get_upload_status','get_all_uploads','grant_permission','revoke_permission','has_permission','get_user_permissions']);
p('G17','Management calls exclude each other, and the exclusion always ends',
 'While one management call that takes the exclusion is in progress, waiting for another canister, any other such call by any principal is refused as concurrent and has no effect. As soon as the call in progress has ended in whatever way (success, error, failed remote call, trap, upgrade of the canister), the next management call is admitted again.',
 ['schedules','fault_sequences','crash_points'],'all points at which a second call can arrive, all replies, rejections and traps of remote calls, upgrade in the middle of a call',
 UT+' Needs controlled interleaving of inter-canister calls.',
 [C+'guards.rs',C+'updates/management.rs',C+'lifecycle/post_upgrade.rs'],[s('principal_guards','callers in progress',C+'state.rs')],[m('GuardManagement and its Drop',C+'guards.rs')],['any management call']);
p('U18','Uploads complete only with the announced content, and then stay retrievable',
 'A file can be published only through initiation, storing of chunks and a finalisation that succeeds; calls out of that order, unknown paths and re-initiation of a known path are refused without effect. After finalisation the published address leads to a storage canister which serves exactly the bytes that were uploaded; before finalisation and after cancellation no such address exists, and a path that no request could lead to is refused; the storage canisters take no orders from users, whatever they may do at the ledger, unless they could manage permissions when the ledger was installed. Reported upload states are exactly initialised, in progress and finalised as these calls were made.',
 ['histories','inputs'],'all orders of upload calls over several paths, chunk sizes and contents',
 UT+' No unit test reaches the upload path, which spans two canisters.',
 [C+'updates/management.rs',C+'types/sub_canister.rs',C+'types/management.rs'],[s('internal_filestorage','upload states',C+'state.rs'),s('media_redirections','published paths',C+'state.rs')],[m('init_upload/store_chunk/finalize_upload/cancel_upload',C+'updates/management.rs')],['init_upload','store_chunk','finalize_upload','cancel_upload','get_upload_status','get_all_uploads','http_request']);
p('U19','Upload failures are reported and can be retried',
 'When creating, installing or calling a storage canister fails at any step, the upload call answers with an error (it never hangs or traps) and leaves the upload state as before the call, so that repeating it later, when the remote side works again, succeeds, or the upload can be cancelled and its path used again. Storage canisters that were set up are remembered and used again as long as they have room for the file; one that has not, or cannot be reached, is passed over for the next, and only when none is left is another created, and no failure makes an already published file unavailable.',
 ['fault_sequences','schedules','histories'],'a failure (rejection, error reply) at each remote call of each upload operation, singly and repeated up to and beyond the retry limit',
 UT+' Needs fault injection at inter-canister calls.',
 [C+'types/sub_canister.rs',C+'updates/management.rs','src/core_nft/src/utils.rs'],[s('sub_canister_manager','known storage canisters',C+'types/sub_canister.rs')],[m('retry_async and error propagation',C+'utils.rs'),m('SubCanisterManager',C+'types/sub_canister.rs')],['init_upload','store_chunk','finalize_upload','get_all_storage_subcanisters']);
p('U20','Published addresses are served as redirects, and nothing else is',
 'A finalisation returns the file\'s address at the ledger, and a request for it answers with a redirect to that file at the storage canister that holds it, before and after upgrades, and the built-in pages are served with certified content; any other path yields neither a redirect nor content. Paths that were never published, were cancelled, or are still being uploaded never redirect.',
 ['histories','inputs'],'all sets of published, cancelled and in-progress paths, all requested paths, before and after upgrades',
 UT+' Certification state is rebuilt at upgrade; no test that runs here asks for a page after one.',
 [C+'queries/http_request.rs',C+'types/http.rs',C+'lifecycle/post_upgrade.rs',C+'updates/management.rs'],[s('media_redirections','path -> address',C+'state.rs')],[m('add_redirection / certify_all_assets',C+'types/http.rs')],['http_request']);
p('D21','An upgrade preserves all observable state',
 'After an upgrade, at whatever point of a history it is made, every observable (owners, balances, approvals, metadata, configuration, permissions, the next id to be minted, the log and its archives, uploads and published paths) is what it was immediately before. Later behaviour, including acceptance of calls, deduplication and the periodic jobs, is as if no upgrade had happened.',
 ['histories','crash_points'],'an upgrade at every point of every explored history, repeatedly',
 UT+' No test that runs here upgrades a canister.',
 [C+'lifecycle/pre_upgrade.rs',C+'lifecycle/post_upgrade.rs',C+'state.rs',C+'memory.rs',C+'migrations/mod.rs'],[s('RuntimeState','serialised at upgrade',C+'state.rs')],[m('pre_upgrade/post_upgrade',C+'lifecycle/post_upgrade.rs')],['all queries']);
p('M22','Token metadata is exactly what was last set for that token',
 'The metadata reported for an existing token is exactly the map given at its mint or, if later updated by an authorised caller, the map of the last successful update, as a whole replacement; updating one token never affects another, and the update returns an error for a token that does not exist. Each update is logged with the previous and the new metadata.',
 ['histories','inputs'],'all metadata maps (nested values of all kinds), mint and update orders, several tokens, upgrades',
 UT+' Unit tests cover only value conversion round trips, not the store.',
 [C+'types/metadata.rs',C+'types/nft.rs',C+'updates/management.rs',C+'queries/icrc7.rs'],[s('metadata store','stable map of token metadata',C+'types/metadata.rs')],[m('replace/insert metadata',C+'types/metadata.rs')],['icrc7_token_metadata','update_nft_metadata']);
p('C23','Collection configuration is exactly what was last configured, and is obeyed',
 'Each collection-level query reports the value given at installation or in the last authorised successful update of that field, or the documented default; an update changes exactly the fields it names. The limits in force (batch sizes, take value, memo size, supply cap, approval limits, time limits) are those being reported.',
 ['histories','inputs','configurations'],'all subsets of fields at installation and in updates, in all orders, with upgrades',
 UT+' About twenty optional fields with independent defaults.',
 [C+'updates/management.rs',C+'queries/icrc7.rs',C+'lifecycle/init.rs','src/core_nft/src/types/icrc7.rs'],[s('collection fields','configuration',C+'state.rs')],[m('update_collection_metadata',C+'updates/management.rs')],['icrc7_collection_metadata','icrc7_name','icrc7_symbol','icrc7_description','icrc7_logo','icrc7_max_*','icrc7_supply_cap','icrc7_tx_window','icrc7_permitted_drift','icrc7_atomic_batch_transfers','icrc37_max_*']);
p('Q24','Paging through any listing yields each element exactly once, in order',
 'Listing tokens, the tokens of an account, approvals or uploads page by page, continuing from the last element received, yields every element exactly once in the listing\'s fixed order, whatever the page sizes, and no page is longer than asked for or, when nothing is asked for, than the default. Token listings refuse requests above the configured maximum.',
 ['inputs','histories','configurations'],'all contents, page sizes (incl. zero and absent), start elements (incl. absent and no longer existing ones) and limits',
 UT+' Paging code has no unit tests.',
 [C+'queries/icrc7.rs',C+'queries/icrc37.rs',C+'updates/management.rs'],[],[m('prev/take handling',C+'queries/icrc7.rs')],['icrc7_tokens','icrc7_tokens_of','icrc37_get_token_approvals','icrc37_get_collection_approvals','get_all_uploads']);
p('B25','Batch answers correspond to batch items, in order',
 'A batch call or batch query answers with one result per item, in the order of the items, each being what the item alone would have given in the state left by the items before it; an empty batch gives an empty answer. Batches above the configured size are cut or refused as a whole, as configured, and never processed beyond the limit.',
 ['inputs','configurations','histories'],'all batches incl. empty, repeated tokens, mixtures of valid and invalid items, sizes around the limits',
 UT+' Interactions between items of a batch are not tested.',
 [C+'updates/icrc7.rs',C+'updates/icrc37.rs',C+'queries/icrc7.rs'],[s('max_update_batch_size, max_query_batch_size, atomic_batch_transfers','limits',C+'state.rs')],[m('batch loops',C+'updates/icrc7.rs')],['icrc7_transfer','icrc37_*','icrc7_owner_of','icrc7_balance_of','icrc7_token_metadata']);
p('X26','The index covers exactly the ledger\'s blocks, each under the right keys',
 'Once caught up, the index has processed exactly the ledger\'s blocks in order, each once: it lists a block under an account, block type or token if and only if the block mentions that account as one of its parties, has that type, or concerns that token. The number of blocks reported as processed never exceeds the ledger\'s and never decreases.',
 ['histories','schedules'],'all ledgers of mixed block types, incl. blocks naming one account in two roles, any spacing of ledger activity and index rounds',
 'The index unit test only covers grouping of consecutive ids; nothing compares the index to a ledger.',
 [I+'index.rs',I+'jobs.rs',I+'wrapped_values.rs',I+'blocks.rs',I+'state.rs'],[s('index','key -> block ids',I+'index.rs'),s('last_block_id','next block',I+'state.rs')],[m('add_block_to_index',I+'index.rs'),m('update_index job',I+'jobs.rs')],['get_blocks','status']);
p('X27','Index queries return exactly the matching blocks, page by page, in order',
 'A filtered query returns, in the requested order, exactly the requested slice (counted from the oldest) of the processed blocks that match all the given filters, with their true ids and contents; an unfiltered ascending query returns the requested range, an unfiltered descending query the range of that length that starts that far before the end. Two identical queries with no activity between them give identical answers, whether or not the blocks come from the cache, the ledger or an archive.',
 ['inputs','histories'],'all filter combinations, orders, starts and lengths on mixed ledgers, with warm, cold and cleared cache',
 'No test that runs here calls the index.',
 [I+'update/get_blocks.rs',I+'blocks.rs',I+'cache.rs',I+'index.rs'],[],[m('get_blocks',I+'update/get_blocks.rs')],['get_blocks']);
p('X28','Indexing survives faults, delays and upgrades without loss or repetition',
 'If the ledger or an archive is unreachable, answers late or with an error, or rounds overlap, or the index is upgraded at any moment, the index neither skips nor repeats a block, and it continues from where it stopped as soon as the ledger answers again. Queries made meanwhile never return wrong blocks.',
 ['fault_sequences','schedules','crash_points'],'a failure or delay at each remote call of a round, overlapping rounds, upgrade between and during rounds',
 'Needs controlled scheduling of inter-canister calls and timers.',
 [I+'jobs.rs',I+'blocks.rs',I+'lifecycle/pre_upgrade.rs',I+'lifecycle/post_upgrade.rs',I+'state.rs',I+'memory.rs'],[s('last_block_id','progress',I+'state.rs')],[m('update_index job',I+'jobs.rs'),m('pre/post upgrade',I+'lifecycle/post_upgrade.rs')],['get_blocks','status']);
p('X29','Consent messages describe the call that would be made',
 'A consent message is produced exactly for the supported calls with decodable arguments (including empty batches), and says which call it is for, how many tokens it affects when more than one, and, for a collection approval, who would be approved. For an unsupported call or undecodable arguments an error is answered, and producing a message never changes the ledger.',
 ['inputs'],'all supported methods, arguments, optional fields and batch shapes, and unsupported or malformed input',
 'No test covers consent messages.',
 [C+'queries/icrc21.rs','src/core_nft/src/types/icrc21.rs'],[],[m('icrc21_canister_call_consent_message',C+'queries/icrc21.rs')],['icrc21_canister_call_consent_message']);
p('I30','An installation gives exactly what its arguments say, or is refused',
 'A newly installed ledger reports exactly the given settings, approval limits and permissions (in test mode also every permission for the installer), and has no token, block or upload; the standards and block types it declares cover all that it serves and logs. Arguments with an approval limit of zero, with a logo that is not an address, or meant for an upgrade are refused. An upgrade with installation arguments is refused and changes nothing.',
 ['inputs','histories'],'all combinations of given and omitted installation arguments with ordinary, zero and huge values, all assignments of permissions, in and out of test mode, and any history after the installation',
 UT+' Installation arguments are copied field by field through several structures.',
 [C+'lifecycle/init.rs',C+'lifecycle/post_upgrade.rs',C+'state.rs',C+'queries/icrc7.rs',C+'queries/icrc10.rs'],[s('data','configuration and permissions',C+'state.rs')],[m('init',C+'lifecycle/init.rs'),m('post_upgrade',C+'lifecycle/post_upgrade.rs')],['canister_init','canister_post_upgrade','icrc7_* getters','get_user_permissions','icrc3_supported_block_types','icrc10_supported_standards']);
fs.writeFileSync(new URL('../properties.jsonl',import.meta.url),P.map(x=>JSON.stringify(x)).join('\n')+'\n');
for(const x of P){if(x.title.length>80)console.log('TITLE',x.id,x.title.length);const n=x.statement.split(/\.(\s|$)/).filter(y=>y&&y.trim()).length;if(n>3)console.log('SENT',x.id,n);for(const f of x.anchors.files)if(!fs.existsSync('/repo/'+f))console.log('NOFILE',x.id,f);}
