From 0fca91560f9d998be67205a15cb97b5f1c3e3d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 01/39] fix: burning a token also removes it from its owner's
 list, its approvals and its metadata

---
 src/core_nft/src/updates/management.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index bce3aee..08766bd 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -7,6 +7,8 @@ use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFile
 use crate::types::http::add_redirection;
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
+use crate::types::wrapped_types::WrappedNat;
+use crate::types::__TOKEN_APPROVALS;
 use crate::types::{icrc7, management, nft};
 use crate::utils::{check_memo, trace};
 
@@ -365,7 +367,15 @@ pub fn burn_nft(token_id: Nat) -> management::burn_nft::Response {
 
     mutate_state(|state| {
         state.data.tokens_list.remove(&token_id);
+        if let Some(tokens) = state.data.tokens_list_by_owner.get_mut(&token.token_owner) {
+            tokens.retain(|id| *id != token_id);
+        }
+    });
+
+    __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+        token_approvals.remove(&WrappedNat::from(token_id.clone()));
     });
+    __METADATA.with_borrow_mut(|m| m.replace_all_data(Some(token_id), BTreeMap::new()));
 
     Ok(())
 }
-- 
2.43.0


From 8f9e05564e002976a4f77038c511cd564096914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 02/39] fix: icrc7_transfer clears the token approvals of the
 previous owner

---
 src/core_nft/src/updates/icrc7.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 5c990d6..708c280 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -2,7 +2,7 @@ use crate::utils::check_memo;
 use crate::utils::trace;
 use crate::{
     state::{icrc3_add_transaction, mutate_state, read_state},
-    types::icrc7,
+    types::{icrc7, WrappedNat, __TOKEN_APPROVALS},
 };
 use bity_ic_icrc3::transaction::{ICRC7Transaction, ICRC7TransactionData};
 use candid::{Nat, Principal};
@@ -99,6 +99,9 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
                     .or_insert(vec![])
                     .retain(|id| *id != nft.token_id.clone());
             });
+            __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+                token_approvals.remove(&WrappedNat::from(nft.token_id.clone()));
+            });
             Ok(Nat::from(transaction_id))
         }
         Err(e) => {
-- 
2.43.0


From 34440e33b2966b691fb9b97be1efc44b821455af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 03/39] fix: icrc37_transfer_from keeps collection approvals
 while the account still owns tokens

---
 src/core_nft/src/updates/icrc37.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index e21b1db..b84e298 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -835,11 +835,7 @@ fn transfer_from(
         token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
     });
 
-    let has_nfts = __TOKEN_APPROVALS.with_borrow(|token_approvals| {
-        token_approvals
-            .get(&WrappedNat::from(arg.token_id.clone()))
-            .is_some()
-    });
+    let has_nfts = read_state(|state| state.data.tokens_balance_of(&arg.from)) > 0u64;
 
     if !has_nfts {
         __COLLECTION_APPROVALS.with_borrow_mut(|collection_approvals| {
-- 
2.43.0


From 72a9760f18a9e6256dda272053c3f1412e723fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 04/39] fix: refuse the anonymous principal as spender and
 recipient whatever its subaccount

---
 src/core_nft/src/updates/icrc37.rs | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index b84e298..9c8b440 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -110,12 +110,7 @@ fn approve_token(
         return ApproveTokenResult::Err(ApproveTokenError::Unauthorized);
     }
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.approval_info.spender == anonymous_account {
+    if arg.approval_info.spender.owner == Principal::anonymous() {
         return ApproveTokenResult::Err(ApproveTokenError::InvalidSpender);
     }
 
@@ -263,12 +258,7 @@ fn approve_collection(
         subaccount: arg.approval_info.from_subaccount,
     };
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.approval_info.spender == anonymous_account {
+    if arg.approval_info.spender.owner == Principal::anonymous() {
         return ApproveCollectionResult::Err(ApproveCollectionError::InvalidSpender);
     }
 
@@ -699,12 +689,7 @@ fn transfer_from(
         return TransferFromResult::Err(TransferFromError::InvalidRecipient);
     }
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.to == anonymous_account {
+    if arg.to.owner == Principal::anonymous() {
         return TransferFromResult::Err(TransferFromError::InvalidRecipient);
     }
 
-- 
2.43.0


From ca7b615b1800d40d05d9db1e0deb24115a1a8e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 05/39] fix: icrc37_revoke_collection_approvals honours
 from_subaccount

---
 src/core_nft/src/updates/icrc37.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 9c8b440..96c1477 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -573,7 +573,7 @@ fn revoke_collection_approvals(
 
     let from_account = Account {
         owner: caller,
-        subaccount: None,
+        subaccount: arg.from_subaccount,
     };
 
     let collection_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
-- 
2.43.0


From 3348b846da03dd716dca9f78deafe51dd243c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 06/39] fix: revoking an approval that does not exist is an
 error and is not logged

---
 src/core_nft/src/updates/icrc37.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 96c1477..c979a7d 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -462,7 +462,16 @@ fn revoke_token_approvals(
     let mut approval_map = token_approvals.unwrap().0;
 
     if let Some(spender) = &arg.spender {
-        approval_map.remove(&WrappedAccount::from(spender.clone()));
+        if approval_map
+            .remove(&WrappedAccount::from(spender.clone()))
+            .is_none()
+        {
+            return RevokeTokenApprovalResponse::Err(
+                RevokeTokenApprovalError::ApprovalDoesNotExist,
+            );
+        }
+    } else if approval_map.is_empty() {
+        return RevokeTokenApprovalResponse::Err(RevokeTokenApprovalError::ApprovalDoesNotExist);
     } else {
         approval_map.clear();
     };
@@ -589,7 +598,18 @@ fn revoke_collection_approvals(
     let mut approval_map = collection_approvals.unwrap().0;
 
     if let Some(spender) = &arg.spender {
-        approval_map.remove(&WrappedAccount::from(spender.clone()));
+        if approval_map
+            .remove(&WrappedAccount::from(spender.clone()))
+            .is_none()
+        {
+            return RevokeCollectionApprovalResult::Err(
+                RevokeCollectionApprovalError::ApprovalDoesNotExist,
+            );
+        }
+    } else if approval_map.is_empty() {
+        return RevokeCollectionApprovalResult::Err(
+            RevokeCollectionApprovalError::ApprovalDoesNotExist,
+        );
     } else {
         approval_map.clear();
     }
-- 
2.43.0


From 511d9516ba34c95ec17e03cbb9b01484173521c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 07/39] fix: icrc37_is_approved looks up the collection
 approvals of the token owner and honours their expiry

---
 src/core_nft/src/queries/icrc37.rs | 34 ++++++++++++++++--------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 2cd6bc7..301d44f 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -143,11 +143,6 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
 
         for arg in args {
             let spender_account = arg.spender.clone();
-            let from_account = Account {
-                owner: arg.spender.owner,
-                subaccount: arg.from_subaccount,
-            };
-
             let current_time = ic_cdk::api::time();
 
             let has_token_approval = if let Some(token_approvals) = __TOKEN_APPROVALS
@@ -178,16 +173,24 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
 
             trace(&format!("has_token_approval: {:?}", has_token_approval));
 
-            let has_collection_approval = __COLLECTION_APPROVALS
-                .with_borrow(|collection_approvals| {
-                    collection_approvals.get(&WrappedAccount::from(spender_account.clone()))
+            let owner = state.data.owner_of(&arg.token_id);
+
+            let has_collection_approval = owner
+                .and_then(|owner| {
+                    __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
+                        collection_approvals.get(&WrappedAccount::from(owner))
+                    })
                 })
-                .map(|approval_map| approval_map.0)
-                .unwrap_or(HashMap::new())
-                .iter()
-                .any(|(account, _approval)| {
-                    account.0.owner == spender_account.owner
-                        && account.0.subaccount == spender_account.subaccount
+                .and_then(|approval_map| {
+                    approval_map
+                        .0
+                        .get(&WrappedAccount::from(spender_account))
+                        .cloned()
+                })
+                .is_some_and(|approval| {
+                    approval
+                        .expires_at
+                        .map_or(true, |expires_at| expires_at > current_time)
                 });
 
             trace(&format!(
@@ -195,8 +198,7 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
                 has_collection_approval
             ));
 
-            let owner = state.data.owner_of(&arg.token_id);
-            let is_owner = owner == Some(from_account);
+            let is_owner = owner == Some(spender_account);
 
             trace(&format!("is_owner: {:?}", is_owner));
 
-- 
2.43.0


From 738dd9e55006e4bb6e3f3b3e2902e9299485aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 08/39] fix: a failing mint leaves no block and no metadata
 behind

---
 src/core_nft/src/updates/management.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 08766bd..0ba2e19 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -172,9 +172,7 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
     for (i, mint_request) in req.mint_requests.iter().enumerate() {
         let token_id = current_token_id.clone() + Nat::from(i as u64);
 
-        let mut new_token =
-            nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
-        __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
+        let new_token = nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
 
         let transaction = ICRC7Transaction::new(
             "7mint".to_string(),
@@ -194,10 +192,14 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
         transactions.push(transaction);
     }
 
-    for transaction in transactions {
+    for (i, transaction) in transactions.into_iter().enumerate() {
         match icrc3_add_transaction(transaction) {
             Ok(_) => {}
             Err(e) => {
+                if i > 0 {
+                    // part of the batch is already logged: trap to roll back the whole batch
+                    ic_cdk::trap(&format!("Failed to log transaction: {}", e));
+                }
                 return Err(management::mint::MintError::StorageCanisterError(
                     e.to_string(),
                 ));
@@ -205,6 +207,10 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
         }
     }
 
+    for ((_, new_token, _), mint_request) in new_tokens.iter_mut().zip(&req.mint_requests) {
+        __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
+    }
+
     mutate_state(|state| {
         let new_last_token_id =
             current_token_id.clone() + Nat::from(req.mint_requests.len() as u64);
-- 
2.43.0


From 1831d2faf50b3326e8730bc46ce7179780b799e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 09/39] fix: update_nft_metadata changes the metadata only once
 the change is logged

---
 src/core_nft/src/updates/management.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 0ba2e19..23ee8f9 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -255,11 +255,6 @@ pub fn update_nft_metadata(
             let previous_metadata =
                 __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
 
-            __METADATA.with_borrow_mut(|m| token.replace_metadata(m, req.metadata));
-
-            let new_metadata =
-                __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
-
             let mut metadata_map = BTreeMap::new();
 
             metadata_map.insert(
@@ -275,13 +270,7 @@ pub fn update_nft_metadata(
 
             metadata_map.insert(
                 "icrc7:new_metadata".to_string(),
-                Icrc3Value::Map(
-                    new_metadata
-                        .unwrap_or_default()
-                        .into_iter()
-                        .map(|(k, v)| (k, v.0))
-                        .collect(),
-                ),
+                Icrc3Value::Map(req.metadata.iter().cloned().collect()),
             );
 
             let meta = Icrc3Value::Map(metadata_map);
@@ -312,6 +301,8 @@ pub fn update_nft_metadata(
                 }
             };
 
+            __METADATA.with_borrow_mut(|m| token.replace_metadata(m, req.metadata));
+
             mutate_state(|state| {
                 state
                     .data
-- 
2.43.0


From 82fdedfb5b636c34c089bf2fcc3f4f5ca417c9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 10/39] fix: the upload garbage collector cancels exactly the
 unfinished uploads older than a day

---
 .../src/jobs/upload_garbage_collector.rs      | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/core_nft/src/jobs/upload_garbage_collector.rs b/src/core_nft/src/jobs/upload_garbage_collector.rs
index 64aac02..160ee9c 100644
--- a/src/core_nft/src/jobs/upload_garbage_collector.rs
+++ b/src/core_nft/src/jobs/upload_garbage_collector.rs
@@ -1,11 +1,11 @@
 use std::time::Duration;
 
-use bity_ic_canister_time::{run_interval, DAY_IN_MS};
-use bity_ic_storage_canister_api::cancel_upload;
+use bity_ic_canister_time::{run_interval, DAY_IN_MS, NANOS_PER_MILLISECOND};
+use bity_ic_storage_canister_api::{cancel_upload, types::storage::UploadState};
 use bity_ic_storage_canister_c2c::cancel_upload;
 use tracing::{debug, info};
 
-use crate::state::read_state;
+use crate::state::{mutate_state, read_state};
 
 pub fn start_job() {
     run_interval(
@@ -21,8 +21,16 @@ fn upload_garbage_collector_job() {
 async fn upload_garbage_collector() {
     let all_files = read_state(|state| state.internal_filestorage.get_all_files().clone());
 
-    for (file_path, file) in all_files {
-        if file.init_timestamp + DAY_IN_MS > ic_cdk::api::time() {
+    for (file_path, _) in all_files {
+        // read again, the upload may have changed while waiting for a previous answer
+        let Some(file) = read_state(|state| state.internal_filestorage.get(&file_path).cloned())
+        else {
+            continue;
+        };
+
+        if file.state != UploadState::Finalized
+            && file.init_timestamp + DAY_IN_MS * NANOS_PER_MILLISECOND < ic_cdk::api::time()
+        {
             let result = cancel_upload(
                 file.canister,
                 cancel_upload::Args {
@@ -32,10 +40,11 @@ async fn upload_garbage_collector() {
             .await;
 
             match result {
-                Ok(_) => {
+                Ok(Ok(_)) => {
+                    mutate_state(|state| state.internal_filestorage.remove(&file_path));
                     debug!("Successfully canceled upload for file {}", file_path);
                 }
-                Err(err) => {
+                err => {
                     info!("Failed to cancel upload for file {}: {:?}", file_path, err);
                 }
             }
-- 
2.43.0


From 70623e5f43c7169082c49c150b7bb194d2517921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 11/39] fix: management guards of calls cut off by an upgrade
 do not block later calls

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 746684b..b702fe3 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -46,6 +46,9 @@ fn post_upgrade(args: Args) {
             // ) = serializer::deserialize(reader).unwrap();
             // let mut state = RuntimeState::from(runtime_state_v0);
 
+            // calls in progress do not survive the upgrade, neither must their guards
+            state.principal_guards.clear();
+
             state.env.set_version(upgrade_args.version);
             state.env.set_commit_hash(upgrade_args.commit_hash);
 
-- 
2.43.0


From ba0bbb58ebaeeb9aaefad7daa782405404fe471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 12/39] fix: certify the built-in pages again after an upgrade

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index b702fe3..4d6eb05 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -1,7 +1,7 @@
 use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
 use crate::state::{read_state, replace_icrc3, start_default_archive_job, RuntimeState};
-use crate::types::http::add_redirection;
+use crate::types::http::{add_redirection, certify_all_assets};
 use crate::Args;
 
 use bity_ic_canister_logger::LogEntry;
@@ -56,6 +56,7 @@ fn post_upgrade(args: Args) {
             init_canister(state.clone());
             replace_icrc3(icrc3);
             start_default_archive_job();
+            certify_all_assets();
 
             let media_redirections = read_state(|state| state.data.media_redirections.clone());
             for (path, redirection_url) in media_redirections {
-- 
2.43.0


From 91de02d832a6225b1c6c89529e2b0b88ff3f49ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 13/39] fix: serve /logs and /traces with the certificate of
 their own path

---
 src/core_nft/src/queries/http_request.rs | 18 +++++++++---------
 src/core_nft/src/types/http.rs           |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core_nft/src/queries/http_request.rs b/src/core_nft/src/queries/http_request.rs
index 1749e87..8b6a468 100644
--- a/src/core_nft/src/queries/http_request.rs
+++ b/src/core_nft/src/queries/http_request.rs
@@ -17,14 +17,14 @@ fn http_request(req: HttpRequest) -> HttpResponse {
     let path = req.get_path().expect("Failed to parse request path");
 
     match path.as_str() {
-        "/logs" => serve_logs(bity_ic_canister_logger::export_logs()),
-        "/traces" => serve_logs(bity_ic_canister_logger::export_traces()),
+        "/logs" => serve_logs("/logs", bity_ic_canister_logger::export_logs()),
+        "/traces" => serve_logs("/traces", bity_ic_canister_logger::export_traces()),
         "/metrics" => serve_metrics(),
         _ => serve_asset(&req),
     }
 }
 
-fn serve_logs(logs: Vec<LogEntry>) -> HttpResponse<'static> {
+fn serve_logs(path: &str, logs: Vec<LogEntry>) -> HttpResponse<'static> {
     ASSET_ROUTER.with_borrow(|_| {
         let body = serde_json::to_vec(&logs).expect("Failed to serialize metrics");
         let headers = get_asset_headers(vec![
@@ -47,15 +47,15 @@ fn serve_logs(logs: Vec<LogEntry>) -> HttpResponse<'static> {
         HTTP_TREE.with(|tree| {
             let tree = tree.borrow();
 
-            let metrics_tree_path = HttpCertificationPath::exact("/metrics");
-            let metrics_certification = HttpCertification::skip();
-            let metrics_tree_entry =
-                HttpCertificationTreeEntry::new(&metrics_tree_path, metrics_certification);
+            let logs_tree_path = HttpCertificationPath::exact(path);
+            let logs_certification = HttpCertification::skip();
+            let logs_tree_entry =
+                HttpCertificationTreeEntry::new(&logs_tree_path, logs_certification);
             add_v2_certificate_header(
                 &data_certificate().expect("No data certificate available"),
                 &mut response,
-                &tree.witness(&metrics_tree_entry, "/metrics").unwrap(),
-                &metrics_tree_path.to_expr_path(),
+                &tree.witness(&logs_tree_entry, path).unwrap(),
+                &logs_tree_path.to_expr_path(),
             );
 
             response
diff --git a/src/core_nft/src/types/http.rs b/src/core_nft/src/types/http.rs
index bdff63a..17c93dd 100644
--- a/src/core_nft/src/types/http.rs
+++ b/src/core_nft/src/types/http.rs
@@ -94,7 +94,7 @@ pub fn certify_all_assets() {
         let logs_tree_entry = HttpCertificationTreeEntry::new(logs_tree_path, logs_certification);
         tree.insert(&logs_tree_entry);
 
-        let trace_tree_path = HttpCertificationPath::exact("/trace");
+        let trace_tree_path = HttpCertificationPath::exact("/traces");
         let trace_certification = HttpCertification::skip();
         let trace_tree_entry =
             HttpCertificationTreeEntry::new(trace_tree_path, trace_certification);
-- 
2.43.0


From 48de08196249d28c55a22476d8baac7d52cc0b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 14/39] fix: refuse an upload whose path is published under the
 same address as another one

---
 src/core_nft/src/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/state.rs b/src/core_nft/src/state.rs
index 10524b6..3776c34 100644
--- a/src/core_nft/src/state.rs
+++ b/src/core_nft/src/state.rs
@@ -310,7 +310,11 @@ impl InternalFilestorage {
     }
 
     pub fn contains_path(&self, path: &str) -> bool {
-        self.map.values().any(|data| data.path == path)
+        // "a" and "/a" are published under the same address
+        let normalized = |path: &str| path.strip_prefix('/').unwrap_or(path).to_string();
+        self.map
+            .values()
+            .any(|data| normalized(&data.path) == normalized(path))
     }
 
     pub fn get_all_files(&self) -> Vec<(String, InternalFilestorageData)> {
-- 
2.43.0


From 6d6e63f616ee538cfcafe88f70f23b03b5190942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 15/39] fix: duplicate transfers are answered with the
 duplicate error

---
 src/core_nft/src/updates/icrc37.rs | 5 +++++
 src/core_nft/src/updates/icrc7.rs  | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index c979a7d..63505bf 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -807,6 +807,11 @@ fn transfer_from(
                     message: format!("Failed to insert transaction: {}", e),
                 });
             }
+            Icrc3Error::DuplicateTransaction { duplicate_of } => {
+                return TransferFromResult::Err(TransferFromError::Duplicate {
+                    duplicate_of: Nat::from(duplicate_of),
+                });
+            }
             _ => {
                 return TransferFromResult::Err(TransferFromError::GenericError {
                     error_code: Nat::from(1u64),
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 708c280..b421e44 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -106,7 +106,9 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
         }
         Err(e) => {
             if let bity_ic_icrc3::types::Icrc3Error::DuplicateTransaction { duplicate_of } = e {
-                return Ok(Nat::from(duplicate_of));
+                return Err(icrc7::icrc7_transfer::TransferError::Duplicate {
+                    duplicate_of: Nat::from(duplicate_of),
+                });
             }
             Err(icrc7::icrc7_transfer::TransferError::GenericError {
                 error_code: Nat::from(2u64),
-- 
2.43.0


From eaa453c0993c4bbf584a0bf641cb2bc8a84cd84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 16/39] fix: an empty icrc37_revoke_token_approvals call is
 answered instead of trapping

---
 src/core_nft/src/updates/icrc37.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 63505bf..f97bde0 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -372,6 +372,10 @@ fn icrc37_revoke_token_approvals(
 ) -> icrc37_revoke_token_approvals::Response {
     let caller = ic_cdk::api::msg_caller();
 
+    if args.is_empty() {
+        return Ok(vec![]);
+    }
+
     match guard_sliding_window(args[0].token_id.clone()) {
         Err(e) => {
             return icrc37_revoke_token_approvals::Response::Err(
-- 
2.43.0


From 99e3c85082fe0d5185c421a27d2b087a4e5a8cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 17/39] fix: the consent message of an empty
 icrc37_approve_collection call does not trap

---
 src/core_nft/src/queries/icrc21.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/queries/icrc21.rs b/src/core_nft/src/queries/icrc21.rs
index ff62ad3..1884bd8 100644
--- a/src/core_nft/src/queries/icrc21.rs
+++ b/src/core_nft/src/queries/icrc21.rs
@@ -144,7 +144,10 @@ fn handle_approve_collection_consent(args: icrc21::Args) -> icrc21::Response {
                 ));
             }
 
-            let generic_message = format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", approve_args.first().unwrap().approval_info.spender.owner);
+            let generic_message = match approve_args.first() {
+                Some(arg) => format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", arg.approval_info.spender.owner),
+                None => "You are about to approve no one to transfer all your nft available in the collection. Method: icrc37_approve_collection".to_string(),
+            };
 
             create_consent_info(generic_message, args.user_preferences.metadata)
         }
-- 
2.43.0


From 442a3f1ece51493da47053ad68d4bd6227360dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 18/39] fix: expired approvals are neither listed, counted nor
 revocable, and listings show the granting subaccount

---
 src/core_nft/src/queries/icrc37.rs | 12 ++++++++----
 src/core_nft/src/types/icrc37.rs   |  7 +++++++
 src/core_nft/src/updates/icrc37.rs | 16 ++++++++++++++--
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 301d44f..2e59bac 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -18,6 +18,7 @@ fn icrc37_get_token_approvals(
     take: icrc37_get_token_approvals::Args2,
 ) -> icrc37_get_token_approvals::Response {
     let mut response = Vec::new();
+    let current_time = ic_cdk::api::time();
 
     let take_usize = take
         .map(|n| usize::try_from(n.0).unwrap_or(10))
@@ -29,12 +30,13 @@ fn icrc37_get_token_approvals(
         let mut all_approvals: Vec<icrc37_get_token_approvals::TokenApproval> = approvals_map
             .0
             .iter()
+            .filter(|(_, approval)| approval.is_live(current_time))
             .map(
-                |(account, approval)| icrc37_get_token_approvals::TokenApproval {
+                |(_, approval)| icrc37_get_token_approvals::TokenApproval {
                     token_id: token_id.clone(),
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
@@ -81,6 +83,7 @@ fn icrc37_get_collection_approvals(
     take: icrc37_get_collection_approvals::Args2,
 ) -> icrc37_get_collection_approvals::Response {
     let mut response = Vec::new();
+    let current_time = ic_cdk::api::time();
     let take_usize = take
         .map(|n| usize::try_from(n.0).unwrap_or(10))
         .unwrap_or(10);
@@ -93,11 +96,12 @@ fn icrc37_get_collection_approvals(
             .map(|approval_map| approval_map.0)
             .unwrap_or(HashMap::new())
             .iter()
+            .filter(|(_, approval)| approval.is_live(current_time))
             .map(
-                |(account, approval)| icrc37_get_collection_approvals::CollectionApproval {
+                |(_, approval)| icrc37_get_collection_approvals::CollectionApproval {
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
diff --git a/src/core_nft/src/types/icrc37.rs b/src/core_nft/src/types/icrc37.rs
index 72f08a8..34cb3bb 100644
--- a/src/core_nft/src/types/icrc37.rs
+++ b/src/core_nft/src/types/icrc37.rs
@@ -30,6 +30,13 @@ pub struct Approval {
     pub memo: Option<Vec<u8>>,
 }
 
+impl Approval {
+    pub fn is_live(&self, current_time: u64) -> bool {
+        self.expires_at
+            .map_or(true, |expires_at| expires_at > current_time)
+    }
+}
+
 #[derive(CandidType, Serialize, Deserialize, Clone, Debug)]
 pub struct ApprovalInfo {
     pub spender: Account,
diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index f97bde0..11880db 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -147,7 +147,9 @@ fn approve_token(
                 .get(&WrappedNat::from(arg.token_id.clone()))
                 .unwrap()
                 .0
-                .len()
+                .values()
+                .filter(|approval| approval.is_live(current_time))
+                .count()
                 >= max_approvals_per_token
     });
 
@@ -192,6 +194,8 @@ fn approve_token(
             token_approvals.unwrap().0
         };
 
+        approval_map.retain(|_, approval| approval.is_live(current_time));
+
         approval_map.insert(
             WrappedAccount::from(arg.approval_info.spender.clone()),
             approval,
@@ -310,7 +314,9 @@ fn approve_collection(
                 .get(&WrappedAccount::from(from_account.clone()))
                 .unwrap()
                 .0
-                .len()
+                .values()
+                .filter(|approval| approval.is_live(current_time))
+                .count()
                 >= max_approvals_per_collection
     });
 
@@ -355,6 +361,10 @@ fn approve_collection(
             op_approval_map.unwrap()
         };
 
+        approval_map
+            .0
+            .retain(|_, approval| approval.is_live(current_time));
+
         approval_map.0.insert(
             WrappedAccount::from(arg.approval_info.spender.clone()),
             approval,
@@ -464,6 +474,7 @@ fn revoke_token_approvals(
     }
 
     let mut approval_map = token_approvals.unwrap().0;
+    approval_map.retain(|_, approval| approval.is_live(current_time));
 
     if let Some(spender) = &arg.spender {
         if approval_map
@@ -600,6 +611,7 @@ fn revoke_collection_approvals(
     }
 
     let mut approval_map = collection_approvals.unwrap().0;
+    approval_map.retain(|_, approval| approval.is_live(current_time));
 
     if let Some(spender) = &arg.spender {
         if approval_map
-- 
2.43.0


From b3a8f8aa466db7311ded4986f17084af1549d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 19/39] fix: approval listings have a fixed order, so that
 paging neither skips nor repeats

---
 src/core_nft/src/queries/icrc37.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 2e59bac..d06c1eb 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -49,6 +49,7 @@ fn icrc37_get_token_approvals(
             b.approval_info
                 .created_at_time
                 .cmp(&a.approval_info.created_at_time)
+                .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
         });
 
         let start_index = if let Some(prev_approval) = prev {
@@ -114,6 +115,7 @@ fn icrc37_get_collection_approvals(
         b.approval_info
             .created_at_time
             .cmp(&a.approval_info.created_at_time)
+            .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
     });
 
     let start_index = if let Some(prev_approval) = prev {
-- 
2.43.0


From 2df6d56b484b53d581fe7cb5af691f88ee2c5925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 20/39] fix: get_all_uploads pages over a fixed order

---
 src/core_nft/src/updates/management.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 23ee8f9..7458d20 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -581,9 +581,10 @@ pub fn get_all_uploads(
     let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(0);
     let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(100);
     trace(&format!("start: {:?}, end: {:?}", start, end));
-    let filtered_uploads: HashMap<String, UploadState> = all_uploads
-        .map
-        .iter()
+    let mut sorted_uploads: Vec<_> = all_uploads.map.iter().collect();
+    sorted_uploads.sort_by(|a, b| a.0.cmp(b.0));
+    let filtered_uploads: HashMap<String, UploadState> = sorted_uploads
+        .into_iter()
         .skip(start)
         .take(end)
         .map(|(path, status)| (path.clone(), status.state.clone()))
-- 
2.43.0


From fd8b8e0ee5c9e0aa76b8feec67dc8a5e2e4884b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 21/39] fix: a transaction refused because too many blocks wait
 for archiving is not counted in the log

---
 src/core_nft/src/state.rs              | 19 +++++++++++++++++++
 src/core_nft/src/updates/icrc37.rs     |  2 +-
 src/core_nft/src/updates/icrc7.rs      |  2 +-
 src/core_nft/src/updates/management.rs |  2 +-
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/core_nft/src/state.rs b/src/core_nft/src/state.rs
index 3776c34..9e54b31 100644
--- a/src/core_nft/src/state.rs
+++ b/src/core_nft/src/state.rs
@@ -26,6 +26,25 @@ const STORAGE_WASM: &[u8] = include_bytes!("../../../wasm/storage_canister.wasm.
 icrc3_state!();
 canister_state!(RuntimeState);
 
+pub fn log_transaction<T: TransactionType>(transaction: T) -> Result<u64, Icrc3Error> {
+    // ICRC3 counts and remembers a transaction before it notices that there is no room for its
+    // block, so this has to be known beforehand.
+    let is_full = ICRC3_INSTANCE
+        .read()
+        .unwrap()
+        .as_ref()
+        .is_some_and(|icrc3| {
+            icrc3.blockchain.local_transactions.len() as u128
+                >= icrc3.blockchain.max_unarchived_transactions
+        });
+
+    if is_full {
+        return Err(Icrc3Error::LedgerSizeExceeded);
+    }
+
+    icrc3_add_transaction(transaction)
+}
+
 #[derive(Serialize, Deserialize, Clone)]
 pub struct RuntimeState {
     pub env: CanisterEnv,
diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 11880db..417a4d5 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -1,4 +1,4 @@
-use crate::state::{icrc3_add_transaction, mutate_state, read_state};
+use crate::state::{log_transaction as icrc3_add_transaction, mutate_state, read_state};
 pub use crate::types::icrc37::{
     icrc37_approve_collection, icrc37_approve_tokens, icrc37_revoke_collection_approvals,
     icrc37_revoke_token_approvals, icrc37_transfer_from, Approval,
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index b421e44..cad8176 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -1,7 +1,7 @@
 use crate::utils::check_memo;
 use crate::utils::trace;
 use crate::{
-    state::{icrc3_add_transaction, mutate_state, read_state},
+    state::{log_transaction as icrc3_add_transaction, mutate_state, read_state},
     types::{icrc7, WrappedNat, __TOKEN_APPROVALS},
 };
 use bity_ic_icrc3::transaction::{ICRC7Transaction, ICRC7TransactionData};
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 7458d20..f03a377 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -3,7 +3,7 @@ use crate::guards::{
     caller_has_read_uploads_permission, caller_has_update_collection_metadata_permission,
     caller_has_update_metadata_permission, caller_has_update_uploads_permission, GuardManagement,
 };
-use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFilestorageData};
+use crate::state::{log_transaction as icrc3_add_transaction, mutate_state, read_state, InternalFilestorageData};
 use crate::types::http::add_redirection;
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
-- 
2.43.0


From 35ce70d081d36b347ccaad37ca8ed2ecfebffbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 22/39] fix: index approved transfers under their token

---
 src/index_icrc7/src/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index aee2cd0..4eeeb8b 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -354,7 +354,7 @@ impl TransactionDataExtractor for TransferFromBlock {
     }
 
     fn extract_token_id(&self, data: &ICRC3Value) -> Result<Option<WrappedNat>, String> {
-        return Ok(None);
+        TransferBlock.extract_token_id(data)
     }
 }
 
-- 
2.43.0


From 722911d933f3d0546d53a2a3009ceb3899ed5be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 23/39] fix: index collection approvals under their spender

---
 src/index_icrc7/src/blocks.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index 4eeeb8b..f5702af 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -405,6 +405,11 @@ impl TransactionDataExtractor for CollectionApproveBlock {
                             accounts.push(account);
                         }
                     }
+                    if let Some(ICRC3Value::Text(spender)) = tx.get("spender") {
+                        if let Ok(account) = WrappedAccount::from_str(spender) {
+                            accounts.push(account);
+                        }
+                    }
                 }
                 Ok(accounts)
             }
-- 
2.43.0


From ad1d7028b4af440e0716cf59c2a3380b3a64f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 24/39] fix: index a block once under an account that appears
 twice in it

---
 src/index_icrc7/src/index.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/index.rs b/src/index_icrc7/src/index.rs
index 0c70b1d..b131f9e 100644
--- a/src/index_icrc7/src/index.rs
+++ b/src/index_icrc7/src/index.rs
@@ -91,7 +91,9 @@ pub fn add_block_to_index(block: &BlockWithId) -> Result<(), String> {
     };
 
     let block_instance = get_block_instance(&block_type);
-    let accounts = block_instance.extract_accounts(data).unwrap_or_default();
+    let mut accounts = block_instance.extract_accounts(data).unwrap_or_default();
+    accounts.sort();
+    accounts.dedup();
     let token_id = block_instance.extract_token_id(data).unwrap_or_default();
     let _timestamp = block_instance.extract_timestamp(data).unwrap_or_default();
 
-- 
2.43.0


From c6de55dccb103e5de8587d9606497f9e9ca9d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 25/39] fix: overlapping indexing rounds neither repeat nor
 skip blocks

---
 src/index_icrc7/src/jobs.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/index_icrc7/src/jobs.rs b/src/index_icrc7/src/jobs.rs
index 40df08e..0e2642c 100644
--- a/src/index_icrc7/src/jobs.rs
+++ b/src/index_icrc7/src/jobs.rs
@@ -43,7 +43,16 @@ async fn update_index() {
     let blocks = get_all_blocks(block_ids, None).await;
     match blocks {
         Ok(blocks) => {
+            // another round may have indexed some of these blocks in the meantime
+            last_block_id = read_state(|state| state.data.last_block_id);
+
             for block in blocks {
+                if block.id < last_block_id {
+                    continue;
+                }
+                if block.id > last_block_id {
+                    break;
+                }
                 match add_block_to_index(&block) {
                     Ok(_) => {
                         last_block_id += 1;
-- 
2.43.0


From fdeb2f5fdaafb17a31868c9b92152c75c02873d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 26/39] fix: large start and length values in filtered index
 queries are not truncated

---
 src/index_icrc7/src/update/get_blocks.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/index_icrc7/src/update/get_blocks.rs b/src/index_icrc7/src/update/get_blocks.rs
index 1bc0ff6..f328123 100644
--- a/src/index_icrc7/src/update/get_blocks.rs
+++ b/src/index_icrc7/src/update/get_blocks.rs
@@ -67,8 +67,8 @@ async fn get_blocks_with_filters(
 
     combined_block_ids.sort();
 
-    let start_idx = start as usize;
-    let end_idx = (start + length) as usize;
+    let start_idx = usize::try_from(start).unwrap_or(usize::MAX);
+    let end_idx = usize::try_from(start.saturating_add(length)).unwrap_or(usize::MAX);
 
     if start_idx >= combined_block_ids.len() {
         return Vec::new();
-- 
2.43.0


From 7bfe3be752d7dac8132a63eed9a9b02379a33671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:56 +0000
Subject: [PATCH 27/39] fix: a storage canister created by a failing
 init_upload is remembered and used again

---
 src/core_nft/src/updates/management.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index f03a377..cd2e298 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -389,7 +389,12 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
 
     let mut sub_canister_manager = read_state(|state| state.data.sub_canister_manager.clone());
 
-    let canister = match sub_canister_manager.init_upload(data.clone()).await {
+    let result = sub_canister_manager.init_upload(data.clone()).await;
+
+    // also when it failed: a storage canister may have been created on the way
+    mutate_state(|state| state.data.sub_canister_manager = sub_canister_manager);
+
+    let canister = match result {
         Ok((_, canister)) => canister,
         Err(e) => {
             trace(&format!("Error inserting data: {:?}", e));
@@ -398,7 +403,6 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
     };
 
     mutate_state(|state| {
-        state.data.sub_canister_manager = sub_canister_manager;
         state.internal_filestorage.insert(
             data.file_path.clone(),
             InternalFilestorageData {
-- 
2.43.0


From 9d71974ef0981295b50d2a9b15548e53f1603713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 28/39] fix: an upgrade soon after a metadata update with an
 integer value does not fail

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 17 ++++++++++++++---
 src/core_nft/src/lifecycle/pre_upgrade.rs  |  9 +++++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 4d6eb05..70bae41 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -12,7 +12,9 @@ use bity_ic_types::BuildVersion;
 
 use candid::CandidType;
 use ic_cdk_macros::post_upgrade;
+use icrc_ledger_types::icrc::generic_value::ICRC3Value;
 use serde::{Deserialize, Serialize};
+use serde_bytes::ByteBuf;
 use tracing::info;
 
 #[derive(CandidType, Serialize, Deserialize, Debug)]
@@ -34,9 +36,18 @@ fn post_upgrade(args: Args) {
             let reader = get_reader(&memory);
 
             // uncomment these lines if you want to do a normal upgrade
-            let (mut state, logs, traces, icrc3): (RuntimeState, Vec<LogEntry>, Vec<LogEntry>, ICRC3) = bity_ic_serializer
-                ::deserialize(reader)
-                .unwrap();
+            type Saved = (RuntimeState, Vec<LogEntry>, Vec<LogEntry>, ICRC3);
+            let saved: Result<(RuntimeState, Vec<LogEntry>, Vec<LogEntry>, ICRC3, ByteBuf), _> =
+                bity_ic_serializer::deserialize(reader);
+            let (mut state, logs, traces, icrc3): Saved = match saved {
+                Ok((state, logs, traces, mut icrc3, ledger)) => {
+                    let ledger: Vec<ICRC3Value> = candid::decode_one(&ledger).unwrap();
+                    icrc3.ledger = ledger.into();
+                    (state, logs, traces, icrc3)
+                }
+                // saved by a version that kept the recent transactions inside icrc3
+                Err(_) => bity_ic_serializer::deserialize(get_reader(&memory)).unwrap(),
+            };
 
             // uncomment these lines if you want to do an upgrade with migration
             // let (runtime_state_v0, logs, traces): (
diff --git a/src/core_nft/src/lifecycle/pre_upgrade.rs b/src/core_nft/src/lifecycle/pre_upgrade.rs
index 6947fad..c392063 100644
--- a/src/core_nft/src/lifecycle/pre_upgrade.rs
+++ b/src/core_nft/src/lifecycle/pre_upgrade.rs
@@ -5,6 +5,8 @@ use crate::{
 use bity_ic_canister_tracing_macros::trace;
 use bity_ic_stable_memory::get_writer;
 use ic_cdk_macros::pre_upgrade;
+use icrc_ledger_types::icrc::generic_value::ICRC3Value;
+use serde_bytes::ByteBuf;
 use tracing::info;
 
 #[pre_upgrade]
@@ -13,12 +15,15 @@ fn pre_upgrade() {
     info!("Pre upgrade.");
 
     let runtime_state = take_state();
-    let icrc3 = take_icrc3();
+    let mut icrc3 = take_icrc3();
+    // The integers in these values cannot be read back from MessagePack, so they are kept as Candid.
+    let ledger: Vec<ICRC3Value> = icrc3.iter_mut().flat_map(|i| i.ledger.drain(..)).collect();
+    let ledger = ByteBuf::from(candid::encode_one(ledger).unwrap());
 
     let logs = bity_ic_canister_logger::export_logs();
     let traces = bity_ic_canister_logger::export_traces();
 
-    let stable_state = (runtime_state, logs, traces, icrc3);
+    let stable_state = (runtime_state, logs, traces, icrc3, ledger);
 
     let mut memory = get_upgrades_memory();
     let writer = get_writer(&mut memory);
-- 
2.43.0


From bc1e109317db2e2ccee968fd5736f158a21a5464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:25 +0000
Subject: [PATCH 29/39] fix: the permitted drift given at installation is used
 as the permitted drift

---
 src/core_nft/src/lifecycle/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index a384e9f..6bdf194 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -84,8 +84,8 @@ fn init(args: Args) {
                 init_args.max_memo_size,
                 init_args.atomic_batch_transfers,
                 init_args.tx_window.clone(),
-                init_args.permitted_drift,
                 init_args.max_canister_storage_threshold,
+                init_args.permitted_drift,
                 init_args.approval_init.clone(),
             );
 
-- 
2.43.0


From 8f2d136cb0f95c381b3a550b79c6986de679e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:48 +0000
Subject: [PATCH 30/39] fix: a chunk on its way does not bring back an upload
 that was garbage collected

---
 src/core_nft/src/updates/management.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index cd2e298..ff607e0 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -462,6 +462,11 @@ pub async fn store_chunk(data: store_chunk::Args) -> store_chunk::Response {
         }
     }
     mutate_state(|state| {
+        // the upload may have been garbage collected while the chunk was on its way
+        if state.internal_filestorage.get(&data.file_path).is_none() {
+            return Err(store_chunk::StoreChunkError::UploadNotInitialized);
+        }
+
         state.internal_filestorage.insert(
             data.file_path.clone(),
             InternalFilestorageData {
@@ -471,9 +476,9 @@ pub async fn store_chunk(data: store_chunk::Args) -> store_chunk::Response {
                 path: file_path,
             },
         );
-    });
 
-    Ok(store_chunk::StoreChunkResp {})
+        Ok(store_chunk::StoreChunkResp {})
+    })
 }
 
 #[update(guard = "caller_has_update_uploads_permission")]
-- 
2.43.0


From f06a9d57d8fa35400fc84e8f1388c8915c18e7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 31/39] fix: an upload that its storage canister no longer
 knows can be cancelled

---
 .../src/jobs/upload_garbage_collector.rs        | 17 +++++++++++++++--
 src/core_nft/src/updates/management.rs          |  2 ++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/jobs/upload_garbage_collector.rs b/src/core_nft/src/jobs/upload_garbage_collector.rs
index 160ee9c..6fe3865 100644
--- a/src/core_nft/src/jobs/upload_garbage_collector.rs
+++ b/src/core_nft/src/jobs/upload_garbage_collector.rs
@@ -40,8 +40,21 @@ async fn upload_garbage_collector() {
             .await;
 
             match result {
-                Ok(Ok(_)) => {
-                    mutate_state(|state| state.internal_filestorage.remove(&file_path));
+                // an upload that the storage canister no longer knows has nothing left to cancel
+                Ok(Ok(_)) | Ok(Err(cancel_upload::CancelUploadError::UploadNotInitialized)) => {
+                    mutate_state(|state| {
+                        // unless the upload was finalized or replaced in the meantime
+                        if state
+                            .internal_filestorage
+                            .get(&file_path)
+                            .is_some_and(|current| {
+                                current.state != UploadState::Finalized
+                                    && current.init_timestamp == file.init_timestamp
+                            })
+                        {
+                            state.internal_filestorage.remove(&file_path);
+                        }
+                    });
                     debug!("Successfully canceled upload for file {}", file_path);
                 }
                 err => {
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index ff607e0..2d8226f 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -641,6 +641,8 @@ pub async fn cancel_upload(data: cancel_upload::Args) -> cancel_upload::Response
 
     match canister.cancel_upload(data.clone()).await {
         Ok(_) => {}
+        // the storage canister no longer knows the upload, for example after a failed finalization
+        Err(cancel_upload::CancelUploadError::UploadNotInitialized) => {}
         Err(e) => {
             trace(&format!("Error storing chunk: {:?}", e));
             return Err(e);
-- 
2.43.0


From 0448db251efe4846125160a77ef42235ed6ce823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:31 +0000
Subject: [PATCH 32/39] fix: a file is refused a path that no request could
 reach

---
 src/core_nft/src/types/http.rs         | 18 +++++++++++++++++-
 src/core_nft/src/updates/management.rs |  8 +++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/types/http.rs b/src/core_nft/src/types/http.rs
index 17c93dd..99718eb 100644
--- a/src/core_nft/src/types/http.rs
+++ b/src/core_nft/src/types/http.rs
@@ -2,7 +2,7 @@ use ic_asset_certification::{AssetConfig, AssetRedirectKind, AssetRouter};
 use ic_cdk::api::certified_data_set;
 use ic_http_certification::{
     HeaderField, HttpCertification, HttpCertificationPath, HttpCertificationTree,
-    HttpCertificationTreeEntry,
+    HttpCertificationTreeEntry, HttpRequest,
 };
 use std::{cell::RefCell, rc::Rc};
 
@@ -26,6 +26,22 @@ thread_local! {
 // const IMMUTABLE_ASSET_CACHE_CONTROL: &str = "public, max-age=31536000, immutable";
 pub const NO_CACHE_ASSET_CACHE_CONTROL: &str = "public, no-cache, no-store";
 
+// Whether a request can reach a file published under this path: the path has to be the path of a URL
+// (no blanks, queries, fragments or escape sequences) that is not one of the canister's own pages.
+pub fn can_be_served(file_path: &str) -> bool {
+    let path = if file_path.starts_with('/') {
+        file_path.to_string()
+    } else {
+        format!("/{}", file_path)
+    };
+
+    if ["/logs", "/traces", "/metrics"].contains(&path.as_str()) {
+        return false;
+    }
+
+    matches!(HttpRequest::get(path.clone()).build().get_path(), Ok(requested) if requested == path)
+}
+
 pub fn add_redirection(from_url: String, to_url: String) -> Option<()> {
     trace(&format!(
         "add_redirection: from_url: {}, to_url: {}",
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 2d8226f..de897c7 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -4,7 +4,7 @@ use crate::guards::{
     caller_has_update_metadata_permission, caller_has_update_uploads_permission, GuardManagement,
 };
 use crate::state::{log_transaction as icrc3_add_transaction, mutate_state, read_state, InternalFilestorageData};
-use crate::types::http::add_redirection;
+use crate::types::http::{add_redirection, can_be_served};
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
 use crate::types::wrapped_types::WrappedNat;
@@ -387,6 +387,12 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
         return Err(init_upload::InitUploadError::FileAlreadyExists);
     }
 
+    if !can_be_served(&data.file_path) {
+        return Err(init_upload::InitUploadError::StorageCanisterError(
+            "No URL leads to a file of this path.".to_string(),
+        ));
+    }
+
     let mut sub_canister_manager = read_state(|state| state.data.sub_canister_manager.clone());
 
     let result = sub_canister_manager.init_upload(data.clone()).await;
-- 
2.43.0


From 5e9e3f88bf74dee9cba810cc7799ed88f7b8e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:17 +0000
Subject: [PATCH 33/39] fix: an index query for more than a thousand archived
 blocks left the rest out

---
 src/index_icrc7/src/blocks.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index f5702af..a00a507 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -11,6 +11,9 @@ use icrc_ledger_types::icrc3::blocks::{BlockWithId, GetBlocksRequest};
 use serde::{Deserialize, Serialize};
 use std::str::FromStr;
 
+/// An archive answers a request with at most this many blocks
+const MAX_BLOCKS_PER_REQUEST: usize = 1000;
+
 #[derive(CandidType, Deserialize, Serialize, Debug, Clone, PartialEq, Eq, Hash)]
 pub enum BlockType {
     Transfer(TransferBlock),
@@ -539,7 +542,10 @@ pub async fn get_all_blocks(
 
     let ledger_canister_id = read_state(|state| state.data.ledger_canister_id);
 
-    for chunk in chunks {
+    for chunk in chunks
+        .iter()
+        .flat_map(|chunk| chunk.chunks(MAX_BLOCKS_PER_REQUEST))
+    {
         let start = chunk[0];
         let length = chunk.len() as u64;
 
-- 
2.43.0


From 6984d0bb6d0b0aac82032c0075a469b216aa4141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 34/39] fix: the daily cleanup of the index's cache trapped as
 soon as there was something to remove

---
 src/index_icrc7/src/cache.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/index_icrc7/src/cache.rs b/src/index_icrc7/src/cache.rs
index cf8e02f..4724c4c 100644
--- a/src/index_icrc7/src/cache.rs
+++ b/src/index_icrc7/src/cache.rs
@@ -68,16 +68,16 @@ pub fn try_get_value_with_timestamp(key: u64) -> Option<(u64, CustomValue)> {
 
 pub fn remove_all_values_older_than(timestamp: &u64) -> bool {
     __CACHE.with(|cache| {
-        cache
+        let old_keys: Vec<u64> = cache
             .borrow()
             .iter()
             .filter(|(_, entry)| entry.timestamp < *timestamp)
             .map(|(key, _)| key)
-            .collect::<Vec<_>>()
-            .into_iter()
-            .for_each(|key| {
-                cache.borrow_mut().remove(&key);
-            });
+            .collect();
+
+        for key in old_keys {
+            cache.borrow_mut().remove(&key);
+        }
 
         true
     })
-- 
2.43.0


From 97a507f0abd0cf20eebef48ce20b429118a11b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:16 +0000
Subject: [PATCH 35/39] fix: the consent message of icrc37_approve_collection
 names everyone who would be approved

---
 src/core_nft/src/queries/icrc21.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core_nft/src/queries/icrc21.rs b/src/core_nft/src/queries/icrc21.rs
index 1884bd8..aa6c4f9 100644
--- a/src/core_nft/src/queries/icrc21.rs
+++ b/src/core_nft/src/queries/icrc21.rs
@@ -144,10 +144,19 @@ fn handle_approve_collection_consent(args: icrc21::Args) -> icrc21::Response {
                 ));
             }
 
-            let generic_message = match approve_args.first() {
-                Some(arg) => format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", arg.approval_info.spender.owner),
-                None => "You are about to approve no one to transfer all your nft available in the collection. Method: icrc37_approve_collection".to_string(),
+            let mut spenders: Vec<String> = Vec::new();
+            for arg in &approve_args {
+                let spender = arg.approval_info.spender.owner.to_string();
+                if !spenders.contains(&spender) {
+                    spenders.push(spender);
+                }
+            }
+            let approved = if spenders.is_empty() {
+                "no one".to_string()
+            } else {
+                spenders.join(", ")
             };
+            let generic_message = format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", approved);
 
             create_consent_info(generic_message, args.user_preferences.metadata)
         }
-- 
2.43.0


From 53ac0ee08bc906c3a1ceaa6c65ad67470afda1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:21 +0000
Subject: [PATCH 36/39] fix: the ICRC-37 calls refuse a memo longer than the
 configured limit

---
 src/core_nft/src/updates/icrc37.rs | 36 ++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 417a4d5..d29ba44 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -17,6 +17,7 @@ use icrc_ledger_types::icrc1::account::Account;
 use std::collections::HashMap;
 
 use crate::guards::guard_sliding_window;
+use crate::utils::check_memo;
 
 fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(), (bool, u64)> {
     let permited_drift = read_state(|state| state.data.permitted_drift.clone())
@@ -89,6 +90,13 @@ fn approve_token(
         Ok(()) => {}
     }
 
+    if let Err(e) = check_memo(arg.approval_info.memo.clone()) {
+        return ApproveTokenResult::Err(ApproveTokenError::GenericError {
+            error_code: Nat::from(0u64),
+            message: e,
+        });
+    }
+
     let from_account = match arg.approval_info.from_subaccount {
         Some(subaccount) => Account {
             owner: caller,
@@ -257,6 +265,13 @@ fn approve_collection(
         Ok(()) => {}
     }
 
+    if let Err(e) = check_memo(arg.approval_info.memo.clone()) {
+        return ApproveCollectionResult::Err(ApproveCollectionError::GenericError {
+            error_code: Nat::from(0u64),
+            message: e,
+        });
+    }
+
     let from_account = Account {
         owner: caller,
         subaccount: arg.approval_info.from_subaccount,
@@ -444,6 +459,13 @@ fn revoke_token_approvals(
         }
     }
 
+    if let Err(e) = check_memo(arg.memo.clone()) {
+        return RevokeTokenApprovalResponse::Err(RevokeTokenApprovalError::GenericError {
+            error_code: Nat::from(0u64),
+            message: e,
+        });
+    }
+
     let from_account = match arg.from_subaccount {
         Some(subaccount) => Account {
             owner: caller,
@@ -595,6 +617,13 @@ fn revoke_collection_approvals(
         }
     }
 
+    if let Err(e) = check_memo(arg.memo.clone()) {
+        return RevokeCollectionApprovalResult::Err(RevokeCollectionApprovalError::GenericError {
+            error_code: Nat::from(0u64),
+            message: e,
+        });
+    }
+
     let from_account = Account {
         owner: caller,
         subaccount: arg.from_subaccount,
@@ -713,6 +742,13 @@ fn transfer_from(
         }
     }
 
+    if let Err(e) = check_memo(arg.memo.clone()) {
+        return TransferFromResult::Err(TransferFromError::GenericError {
+            error_code: Nat::from(0u64),
+            message: e,
+        });
+    }
+
     let mut nft: nft::Icrc7Token =
         match mutate_state(|state| state.data.tokens_list.get(&arg.token_id).cloned()) {
             Some(token) => token,
-- 
2.43.0


From 0d8ee904a01f1287bb66dd6b5fdc9352bc9fe146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:14 +0000
Subject: [PATCH 37/39] fix: the ICRC-37 calls keep to the configured batch
 limits

---
 src/core_nft/src/queries/icrc37.rs | 13 +++++++++++++
 src/core_nft/src/updates/icrc37.rs | 24 +++++++++++++++++++++---
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index d06c1eb..ee75feb 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -7,6 +7,7 @@ use crate::types::{WrappedAccount, WrappedNat};
 use crate::types::{__COLLECTION_APPROVALS, __TOKEN_APPROVALS};
 
 use bity_ic_icrc3::utils::trace;
+use candid::Nat;
 use ic_cdk_macros::query;
 pub use icrc_ledger_types::icrc1::account::Account;
 use std::collections::HashMap;
@@ -144,6 +145,18 @@ fn icrc37_get_collection_approvals(
 
 #[query]
 fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Response {
+    let max_query_batch_size = read_state(|state| state.data.max_query_batch_size.clone())
+        .unwrap_or(Nat::from(
+            crate::types::icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE,
+        ));
+
+    if Nat::from(args.len()) > max_query_batch_size {
+        ic_cdk::trap(format!(
+            "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
+            max_query_batch_size.0
+        ));
+    }
+
     read_state(|state| {
         let mut response = Vec::with_capacity(args.len());
 
diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index d29ba44..7b43e0d 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -48,13 +48,20 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
     Ok(())
 }
 
+fn max_update_batch_size() -> usize {
+    let max_update_batch_size = read_state(|state| state.data.max_update_batch_size.clone())
+        .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_MAX_UPDATE_BATCH_SIZE));
+
+    usize::try_from(max_update_batch_size.0).unwrap_or(usize::MAX)
+}
+
 #[update]
 fn icrc37_approve_tokens(args: icrc37_approve_tokens::Args) -> icrc37_approve_tokens::Response {
     let caller = ic_cdk::api::msg_caller();
 
     let mut results = Vec::with_capacity(args.len());
 
-    for arg in args {
+    for arg in args.into_iter().take(max_update_batch_size()) {
         let current_time = ic_cdk::api::time(); // get current time each time because of the async calls.
         let result = approve_token(arg, caller, current_time);
         results.push(Some(result));
@@ -226,7 +233,7 @@ fn icrc37_approve_collection(
 
     let mut results = Vec::with_capacity(args.len());
 
-    for arg in args {
+    for arg in args.into_iter().take(max_update_batch_size()) {
         let current_time = ic_cdk::api::time(); // get current time each time because of the async calls.
         let result = approve_collection(arg, caller, current_time);
         results.push(Some(result));
@@ -702,9 +709,20 @@ fn revoke_collection_approvals(
 fn icrc37_transfer_from(args: icrc37_transfer_from::Args) -> icrc37_transfer_from::Response {
     let caller = ic_cdk::api::msg_caller();
 
+    let max_batch_size = max_update_batch_size();
+
+    if read_state(|state| state.data.atomic_batch_transfers.unwrap_or(false))
+        && args.len() > max_batch_size
+    {
+        return Err(icrc37_transfer_from::TransferFromError::GenericError {
+            error_code: Nat::from(0u64),
+            message: "Exceed Max allowed Update Batch Size".to_string(),
+        });
+    }
+
     let mut results = Vec::with_capacity(args.len());
 
-    for arg in args {
+    for arg in args.into_iter().take(max_batch_size) {
         let current_time = ic_cdk::api::time();
         let result = transfer_from(arg, caller, current_time);
         results.push(Some(result));
-- 
2.43.0


From fd8808eeb175a3ff04969baf9246cf9b4ff985fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:16 +0000
Subject: [PATCH 38/39] fix: a limit or page size beyond the machine word is
 kept instead of trapping or falling back to the default

---
 src/core_nft/src/queries/icrc37.rs     |  4 ++--
 src/core_nft/src/queries/icrc7.rs      | 10 +++++-----
 src/core_nft/src/updates/icrc37.rs     |  8 ++++----
 src/core_nft/src/updates/icrc7.rs      |  2 +-
 src/core_nft/src/updates/management.rs |  4 ++--
 src/core_nft/src/utils.rs              |  2 +-
 6 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index ee75feb..502ec0f 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -22,7 +22,7 @@ fn icrc37_get_token_approvals(
     let current_time = ic_cdk::api::time();
 
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     if let Some(approvals_map) = __TOKEN_APPROVALS
@@ -87,7 +87,7 @@ fn icrc37_get_collection_approvals(
     let mut response = Vec::new();
     let current_time = ic_cdk::api::time();
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     let mut all_approvals: Vec<icrc37_get_collection_approvals::CollectionApproval> =
diff --git a/src/core_nft/src/queries/icrc7.rs b/src/core_nft/src/queries/icrc7.rs
index 87283a4..f757748 100644
--- a/src/core_nft/src/queries/icrc7.rs
+++ b/src/core_nft/src/queries/icrc7.rs
@@ -184,7 +184,7 @@ pub fn icrc7_token_metadata(
 
     if token_ids.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -218,7 +218,7 @@ pub fn icrc7_owner_of(token_ids: icrc7::icrc7_owner_of::Args) -> icrc7::icrc7_ow
 
     if token_ids.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -244,7 +244,7 @@ pub fn icrc7_balance_of(
 
     if accounts.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -290,7 +290,7 @@ pub fn icrc7_tokens(
             })
             .0,
         )
-        .unwrap_or(icrc7::DEFAULT_TAKE_VALUE);
+        .unwrap_or(usize::MAX);
 
         let mut tokens: Vec<_> = state.data.tokens_list.keys().cloned().collect();
         tokens.sort();
@@ -333,7 +333,7 @@ pub fn icrc7_tokens_of(
             })
             .0,
         )
-        .unwrap_or(icrc7::DEFAULT_TAKE_VALUE);
+        .unwrap_or(usize::MAX);
 
         let mut tokens: Vec<Nat> = state.data.tokens_ids_of_account(&account);
         tokens.sort();
diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 7b43e0d..d3c1ddc 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -142,7 +142,7 @@ fn approve_token(
         ))
         .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     let memo_clone = arg.approval_info.memo.clone();
 
@@ -326,7 +326,7 @@ fn approve_collection(
         ))
         .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     let would_exceed_max_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
         collection_approvals
@@ -433,7 +433,7 @@ fn icrc37_revoke_token_approvals(
             ))
             .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     Ok(args
         .into_iter()
@@ -576,7 +576,7 @@ fn icrc37_revoke_collection_approvals(
             ))
             .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     Ok(args
         .into_iter()
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index cad8176..e63df81 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -135,7 +135,7 @@ pub async fn icrc7_transfer(args: icrc7::icrc7_transfer::Args) -> icrc7::icrc7_t
         )
     });
 
-    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap();
+    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap_or(usize::MAX);
 
     if atomic_batch_transfers && args.len() > max_batch_size {
         return vec![Some(Err(
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index de897c7..7abd2c1 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -593,8 +593,8 @@ pub fn get_all_uploads(
 ) -> management::get_all_uploads::Response {
     trace(&format!("prev: {:?}, take: {:?}", prev, take));
     let all_uploads = read_state(|state| state.internal_filestorage.clone());
-    let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(0);
-    let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(100);
+    let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(usize::MAX);
+    let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(usize::MAX);
     trace(&format!("start: {:?}, end: {:?}", start, end));
     let mut sorted_uploads: Vec<_> = all_uploads.map.iter().collect();
     sorted_uploads.sort_by(|a, b| a.0.cmp(b.0));
diff --git a/src/core_nft/src/utils.rs b/src/core_nft/src/utils.rs
index c548667..ca5f32a 100644
--- a/src/core_nft/src/utils.rs
+++ b/src/core_nft/src/utils.rs
@@ -14,7 +14,7 @@ pub fn check_memo(memo: Option<serde_bytes::ByteBuf>) -> Result<(), String> {
             })
             .0,
         )
-        .unwrap();
+        .unwrap_or(usize::MAX);
 
         trace(&format!("Memo Size: {}", memo.len()));
         trace(&format!("Max Memo Size: {}", max_memo_size));
-- 
2.43.0


From 022a2fe554d52d8d7f3d16a09d3c862f4b9b201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:28 +0000
Subject: [PATCH 39/39] fix: a time window or drift beyond the machine word is
 kept instead of trapping or wrapping around

---
 src/core_nft/src/lifecycle/init.rs | 2 +-
 src/core_nft/src/updates/icrc37.rs | 8 ++------
 src/core_nft/src/updates/icrc7.rs  | 8 ++++----
 3 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index 6bdf194..3d1a047 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -105,7 +105,7 @@ fn init(args: Args) {
             }
 
             let _tx_window = match init_args.tx_window {
-                Some(tx_window) => Duration::from_millis(u64::try_from(tx_window.0).unwrap()),
+                Some(tx_window) => Duration::from_millis(u64::try_from(tx_window.0).unwrap_or(u64::MAX)),
                 None => Duration::from_secs(0),
             };
 
diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index d3c1ddc..41bfcb1 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -24,11 +24,7 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
         .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT));
 
     if created_at_time
-        > current_time
-            + permited_drift
-                .0
-                .try_into()
-                .unwrap_or(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT)
+        > current_time.saturating_add(permited_drift.0.try_into().unwrap_or(u64::MAX))
     {
         return Err((true, current_time));
     }
@@ -41,7 +37,7 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
             .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_TX_WINDOW))
     });
 
-    if created_at_time + tx_window.0.try_into().unwrap_or(0) < current_time {
+    if created_at_time.saturating_add(tx_window.0.try_into().unwrap_or(u64::MAX)) < current_time {
         return Err((false, 0));
     }
 
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index e63df81..f9aacad 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -47,20 +47,20 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
     });
 
     let drift = permitted_drift
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_PERMITTED_DRIFT);
 
-    if time > current_time + drift {
+    if time > current_time.saturating_add(drift) {
         return Err(icrc7::icrc7_transfer::TransferError::CreatedInFuture {
             ledger_time: Nat::from(current_time),
         });
     }
 
     let tx_window = tx_window
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_TX_WINDOW);
 
-    if time < current_time.saturating_sub(tx_window + drift) {
+    if time < current_time.saturating_sub(tx_window.saturating_add(drift)) {
         return Err(icrc7::icrc7_transfer::TransferError::TooOld);
     }
 
-- 
2.43.0

