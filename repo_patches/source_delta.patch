From 115a2b02100b1ec05be0199ef9a6a9ca6aa28ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 01/49] fix: burning a token removes it from its owner's
 balance

---
 src/core_nft/src/updates/management.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index bce3aee..71a2752 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -365,6 +365,13 @@ pub fn burn_nft(token_id: Nat) -> management::burn_nft::Response {
 
     mutate_state(|state| {
         state.data.tokens_list.remove(&token_id);
+        if let Some(tokens) = state
+            .data
+            .tokens_list_by_owner
+            .get_mut(&token.token_owner)
+        {
+            tokens.retain(|id| *id != token_id);
+        }
     });
 
     Ok(())
-- 
2.43.0


From f8864ac25c576fd79285b1f23e011f4d79efbb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 02/49] fix: token approvals end when the token is transferred
 or burnt

---
 src/core_nft/src/updates/icrc7.rs      | 6 +++++-
 src/core_nft/src/updates/management.rs | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 5c990d6..841df1b 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -2,7 +2,7 @@ use crate::utils::check_memo;
 use crate::utils::trace;
 use crate::{
     state::{icrc3_add_transaction, mutate_state, read_state},
-    types::icrc7,
+    types::{icrc7, wrapped_types::WrappedNat, __TOKEN_APPROVALS},
 };
 use bity_ic_icrc3::transaction::{ICRC7Transaction, ICRC7TransactionData};
 use candid::{Nat, Principal};
@@ -99,6 +99,10 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
                     .or_insert(vec![])
                     .retain(|id| *id != nft.token_id.clone());
             });
+            // approvals were given by the previous owner and end with the transfer
+            __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+                token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
+            });
             Ok(Nat::from(transaction_id))
         }
         Err(e) => {
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 71a2752..6fe5556 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -7,7 +7,8 @@ use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFile
 use crate::types::http::add_redirection;
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
-use crate::types::{icrc7, management, nft};
+use crate::types::wrapped_types::WrappedNat;
+use crate::types::{icrc7, management, nft, __TOKEN_APPROVALS};
 use crate::utils::{check_memo, trace};
 
 pub use crate::types::management::{
@@ -374,6 +375,10 @@ pub fn burn_nft(token_id: Nat) -> management::burn_nft::Response {
         }
     });
 
+    __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+        token_approvals.remove(&WrappedNat::from(token_id));
+    });
+
     Ok(())
 }
 
-- 
2.43.0


From 5cc1339356b93d6329c976d6f42fa83f93f9e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 03/49] fix: permitted drift and storage threshold given at
 init are no longer swapped

---
 src/core_nft/src/lifecycle/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index a384e9f..6bdf194 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -84,8 +84,8 @@ fn init(args: Args) {
                 init_args.max_memo_size,
                 init_args.atomic_batch_transfers,
                 init_args.tx_window.clone(),
-                init_args.permitted_drift,
                 init_args.max_canister_storage_threshold,
+                init_args.permitted_drift,
                 init_args.approval_init.clone(),
             );
 
-- 
2.43.0


From 30b2cdaa13061ba6d86ab07bdc5e7f0bc793e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 04/49] fix: icrc37_is_approved honours collection approvals of
 the token owner

---
 src/core_nft/src/queries/icrc37.rs | 32 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 2cd6bc7..2bfe39d 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -178,24 +178,32 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
 
             trace(&format!("has_token_approval: {:?}", has_token_approval));
 
-            let has_collection_approval = __COLLECTION_APPROVALS
-                .with_borrow(|collection_approvals| {
-                    collection_approvals.get(&WrappedAccount::from(spender_account.clone()))
-                })
-                .map(|approval_map| approval_map.0)
-                .unwrap_or(HashMap::new())
-                .iter()
-                .any(|(account, _approval)| {
-                    account.0.owner == spender_account.owner
-                        && account.0.subaccount == spender_account.subaccount
-                });
+            let owner = state.data.owner_of(&arg.token_id);
+
+            // collection approvals are given by, and stored under, the owner of the token
+            let has_collection_approval = owner.is_some_and(|owner| {
+                __COLLECTION_APPROVALS
+                    .with_borrow(|collection_approvals| {
+                        collection_approvals.get(&WrappedAccount::from(owner))
+                    })
+                    .and_then(|approval_map| {
+                        approval_map
+                            .0
+                            .get(&WrappedAccount::from(spender_account))
+                            .map(|approval| {
+                                approval
+                                    .expires_at
+                                    .map_or(true, |expires_at| expires_at > current_time)
+                            })
+                    })
+                    .unwrap_or(false)
+            });
 
             trace(&format!(
                 "has_collection_approval: {:?}",
                 has_collection_approval
             ));
 
-            let owner = state.data.owner_of(&arg.token_id);
             let is_owner = owner == Some(from_account);
 
             trace(&format!("is_owner: {:?}", is_owner));
-- 
2.43.0


From c51591d15df2a1cd070c4f7992356746643f86e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 05/49] fix: collection approvals survive a transfer on behalf
 while tokens remain

---
 src/core_nft/src/updates/icrc37.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index e21b1db..d6db763 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -835,11 +835,8 @@ fn transfer_from(
         token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
     });
 
-    let has_nfts = __TOKEN_APPROVALS.with_borrow(|token_approvals| {
-        token_approvals
-            .get(&WrappedNat::from(arg.token_id.clone()))
-            .is_some()
-    });
+    let has_nfts =
+        read_state(|state| state.data.tokens_balance_of(&arg.from) > Nat::from(0u64));
 
     if !has_nfts {
         __COLLECTION_APPROVALS.with_borrow_mut(|collection_approvals| {
-- 
2.43.0


From fb7cad157ce8e9056fd15dce901410d1b86b1661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 06/49] fix: a transfer on behalf to any account of the
 anonymous principal is refused

---
 src/core_nft/src/updates/icrc37.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index d6db763..b0425ef 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -699,12 +699,7 @@ fn transfer_from(
         return TransferFromResult::Err(TransferFromError::InvalidRecipient);
     }
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.to == anonymous_account {
+    if arg.to.owner == Principal::anonymous() {
         return TransferFromResult::Err(TransferFromError::InvalidRecipient);
     }
 
-- 
2.43.0


From 97a7a0f52091ccdeacdc8d164b1033fa44f88432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 07/49] fix: revoking an empty list of token approvals no
 longer traps

---
 src/core_nft/src/updates/icrc37.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index b0425ef..4930912 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -382,6 +382,10 @@ fn icrc37_revoke_token_approvals(
 ) -> icrc37_revoke_token_approvals::Response {
     let caller = ic_cdk::api::msg_caller();
 
+    if args.is_empty() {
+        return Ok(vec![]);
+    }
+
     match guard_sliding_window(args[0].token_id.clone()) {
         Err(e) => {
             return icrc37_revoke_token_approvals::Response::Err(
-- 
2.43.0


From b3d71d5685510afc4e149ca9a43a32dd939eb7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 08/49] fix: consent message for an empty collection approval
 no longer traps

---
 src/core_nft/src/queries/icrc21.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/queries/icrc21.rs b/src/core_nft/src/queries/icrc21.rs
index ff62ad3..4fadca6 100644
--- a/src/core_nft/src/queries/icrc21.rs
+++ b/src/core_nft/src/queries/icrc21.rs
@@ -144,7 +144,10 @@ fn handle_approve_collection_consent(args: icrc21::Args) -> icrc21::Response {
                 ));
             }
 
-            let generic_message = format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", approve_args.first().unwrap().approval_info.spender.owner);
+            let generic_message = match approve_args.first() {
+                Some(arg) => format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", arg.approval_info.spender.owner),
+                None => "You are about to approve nobody to transfer your nft available in the collection. Method: icrc37_approve_collection".to_string(),
+            };
 
             create_consent_info(generic_message, args.user_preferences.metadata)
         }
-- 
2.43.0


From c2865c70a84559544f032d49dde1359e90e3b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 09/49] fix: collection approvals given from a subaccount can
 be revoked

---
 src/core_nft/src/updates/icrc37.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 4930912..d0304d5 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -587,7 +587,7 @@ fn revoke_collection_approvals(
 
     let from_account = Account {
         owner: caller,
-        subaccount: None,
+        subaccount: arg.from_subaccount,
     };
 
     let collection_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
-- 
2.43.0


From e724dec1136bbac443895f97454e54e6ece09ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 10/49] fix: extreme times, windows, drifts and limits neither
 wrap around nor trap

---
 src/core_nft/src/updates/icrc37.rs | 14 ++++++--------
 src/core_nft/src/updates/icrc7.rs  | 10 +++++-----
 src/core_nft/src/utils.rs          |  2 +-
 3 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index d0304d5..cd5603d 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -22,13 +22,9 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
     let permited_drift = read_state(|state| state.data.permitted_drift.clone())
         .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT));
 
-    if created_at_time
-        > current_time
-            + permited_drift
-                .0
-                .try_into()
-                .unwrap_or(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT)
-    {
+    let permited_drift: u64 = permited_drift.0.try_into().unwrap_or(u64::MAX);
+
+    if created_at_time > current_time.saturating_add(permited_drift) {
         return Err((true, current_time));
     }
 
@@ -40,7 +36,9 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
             .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_TX_WINDOW))
     });
 
-    if created_at_time + tx_window.0.try_into().unwrap_or(0) < current_time {
+    let tx_window: u64 = tx_window.0.try_into().unwrap_or(u64::MAX);
+
+    if created_at_time.saturating_add(tx_window) < current_time {
         return Err((false, 0));
     }
 
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 841df1b..2d9f12a 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -47,20 +47,20 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
     });
 
     let drift = permitted_drift
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_PERMITTED_DRIFT);
 
-    if time > current_time + drift {
+    if time > current_time.saturating_add(drift) {
         return Err(icrc7::icrc7_transfer::TransferError::CreatedInFuture {
             ledger_time: Nat::from(current_time),
         });
     }
 
     let tx_window = tx_window
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_TX_WINDOW);
 
-    if time < current_time.saturating_sub(tx_window + drift) {
+    if time < current_time.saturating_sub(tx_window.saturating_add(drift)) {
         return Err(icrc7::icrc7_transfer::TransferError::TooOld);
     }
 
@@ -134,7 +134,7 @@ pub async fn icrc7_transfer(args: icrc7::icrc7_transfer::Args) -> icrc7::icrc7_t
         )
     });
 
-    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap();
+    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap_or(usize::MAX);
 
     if atomic_batch_transfers && args.len() > max_batch_size {
         return vec![Some(Err(
diff --git a/src/core_nft/src/utils.rs b/src/core_nft/src/utils.rs
index c548667..ca5f32a 100644
--- a/src/core_nft/src/utils.rs
+++ b/src/core_nft/src/utils.rs
@@ -14,7 +14,7 @@ pub fn check_memo(memo: Option<serde_bytes::ByteBuf>) -> Result<(), String> {
             })
             .0,
         )
-        .unwrap();
+        .unwrap_or(usize::MAX);
 
         trace(&format!("Memo Size: {}", memo.len()));
         trace(&format!("Max Memo Size: {}", max_memo_size));
-- 
2.43.0


From 7aa3738c979ca805140a617dde7e76feb3de772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 11/49] fix: a mint that cannot be logged leaves neither blocks
 nor metadata behind

---
 src/core_nft/src/updates/management.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 6fe5556..e6a92c4 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -171,9 +171,7 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
     for (i, mint_request) in req.mint_requests.iter().enumerate() {
         let token_id = current_token_id.clone() + Nat::from(i as u64);
 
-        let mut new_token =
-            nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
-        __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
+        let new_token = nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
 
         let transaction = ICRC7Transaction::new(
             "7mint".to_string(),
@@ -189,14 +187,18 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
             },
         );
 
-        new_tokens.push((token_id, new_token, mint_request.token_owner.clone()));
+        new_tokens.push((token_id, new_token, mint_request));
         transactions.push(transaction);
     }
 
-    for transaction in transactions {
+    for (i, transaction) in transactions.into_iter().enumerate() {
         match icrc3_add_transaction(transaction) {
             Ok(_) => {}
             Err(e) => {
+                // the blocks already added can only be taken back by rolling back the whole call
+                if i > 0 {
+                    ic_cdk::trap(format!("Failed to log mint transaction: {}", e));
+                }
                 return Err(management::mint::MintError::StorageCanisterError(
                     e.to_string(),
                 ));
@@ -209,12 +211,14 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
             current_token_id.clone() + Nat::from(req.mint_requests.len() as u64);
         state.data.last_token_id = new_last_token_id;
 
-        for (token_id, new_token, token_owner) in new_tokens {
+        for (token_id, mut new_token, mint_request) in new_tokens {
+            __METADATA
+                .with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
             state.data.tokens_list.insert(token_id.clone(), new_token);
             state
                 .data
                 .tokens_list_by_owner
-                .entry(token_owner)
+                .entry(mint_request.token_owner.clone())
                 .or_insert(vec![])
                 .push(token_id);
         }
-- 
2.43.0


From 54393965c06364b07c0d837e27180077e231c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 12/49] fix: a metadata update that cannot be logged leaves the
 metadata unchanged

---
 src/core_nft/src/updates/management.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index e6a92c4..0545360 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -252,10 +252,7 @@ pub fn update_nft_metadata(
             let previous_metadata =
                 __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
 
-            __METADATA.with_borrow_mut(|m| token.replace_metadata(m, req.metadata));
-
-            let new_metadata =
-                __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
+            let new_metadata: BTreeMap<String, Icrc3Value> = req.metadata.iter().cloned().collect();
 
             let mut metadata_map = BTreeMap::new();
 
@@ -272,13 +269,7 @@ pub fn update_nft_metadata(
 
             metadata_map.insert(
                 "icrc7:new_metadata".to_string(),
-                Icrc3Value::Map(
-                    new_metadata
-                        .unwrap_or_default()
-                        .into_iter()
-                        .map(|(k, v)| (k, v.0))
-                        .collect(),
-                ),
+                Icrc3Value::Map(new_metadata),
             );
 
             let meta = Icrc3Value::Map(metadata_map);
@@ -309,6 +300,8 @@ pub fn update_nft_metadata(
                 }
             };
 
+            __METADATA.with_borrow_mut(|m| token.replace_metadata(m, req.metadata));
+
             mutate_state(|state| {
                 state
                     .data
-- 
2.43.0


From 5bc15e62778de762db198b1407d0cb1d010c0d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 13/49] fix: metadata naturals and integers beyond 64 bits are
 stored instead of trapping

---
 src/core_nft/src/types/value_custom.rs | 38 +++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/core_nft/src/types/value_custom.rs b/src/core_nft/src/types/value_custom.rs
index a95fe58..4ba9ecc 100644
--- a/src/core_nft/src/types/value_custom.rs
+++ b/src/core_nft/src/types/value_custom.rs
@@ -1,4 +1,4 @@
-use candid::CandidType;
+use candid::{CandidType, Int, Nat};
 use ic_stable_structures::{storable::Bound, Storable};
 use icrc_ledger_types::icrc::generic_value::ICRC3Value as Value;
 use minicbor::Encoder;
@@ -36,14 +36,30 @@ impl<C> minicbor::Encode<C> for CustomValue {
                 e.array(2)?.u8(1)?.str(t)?;
             }
             Value::Nat(n) => {
-                e.array(2)?
-                    .u8(2)?
-                    .u64(u64::try_from(n.0.clone()).unwrap())?;
+                e.array(2)?.u8(2)?;
+                match u64::try_from(n.0.clone()) {
+                    Ok(n) => e.u64(n)?,
+                    // does not fit: LEB128 bytes
+                    Err(_) => {
+                        let mut bytes = Vec::new();
+                        n.encode(&mut bytes)
+                            .map_err(minicbor::encode::Error::message)?;
+                        e.bytes(&bytes)?
+                    }
+                };
             }
             Value::Int(i) => {
-                e.array(2)?
-                    .u8(3)?
-                    .i64(i64::try_from(i.0.clone()).unwrap())?;
+                e.array(2)?.u8(3)?;
+                match i64::try_from(i.0.clone()) {
+                    Ok(i) => e.i64(i)?,
+                    // does not fit: SLEB128 bytes
+                    Err(_) => {
+                        let mut bytes = Vec::new();
+                        i.encode(&mut bytes)
+                            .map_err(minicbor::encode::Error::message)?;
+                        e.bytes(&bytes)?
+                    }
+                };
             }
             Value::Array(arr) => {
                 e.array(2)?.u8(4)?;
@@ -86,10 +102,18 @@ impl<'b, C> minicbor::Decode<'b, C> for CustomValue {
                 Value::Text(s)
             }
             2 => {
+                if d.datatype()? == minicbor::data::Type::Bytes {
+                    let n = Nat::decode(&mut d.bytes()?).map_err(minicbor::decode::Error::message)?;
+                    return Ok(CustomValue(Value::Nat(n)));
+                }
                 let n = d.u64()?;
                 Value::Nat(n.into())
             }
             3 => {
+                if d.datatype()? == minicbor::data::Type::Bytes {
+                    let i = Int::decode(&mut d.bytes()?).map_err(minicbor::decode::Error::message)?;
+                    return Ok(CustomValue(Value::Int(i)));
+                }
                 let i = d.i64()?;
                 Value::Int(i.into())
             }
-- 
2.43.0


From 69e6a8004e138e3bed7618397659ec7beea77e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 14/49] fix: approval queries answer for token ids beyond 64
 bits

---
 src/core_nft/src/queries/icrc37.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 2bfe39d..f452485 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -19,6 +19,11 @@ fn icrc37_get_token_approvals(
 ) -> icrc37_get_token_approvals::Response {
     let mut response = Vec::new();
 
+    // ids of tokens that do not exist may not even fit the key of the approvals map
+    if read_state(|state| state.data.owner_of(&token_id).is_none()) {
+        return response;
+    }
+
     let take_usize = take
         .map(|n| usize::try_from(n.0).unwrap_or(10))
         .unwrap_or(10);
@@ -142,6 +147,12 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
         let mut response = Vec::with_capacity(args.len());
 
         for arg in args {
+            // ids of tokens that do not exist may not even fit the key of the approvals map
+            if state.data.owner_of(&arg.token_id).is_none() {
+                response.push(false);
+                continue;
+            }
+
             let spender_account = arg.spender.clone();
             let from_account = Account {
                 owner: arg.spender.owner,
-- 
2.43.0


From deedec3a9dff16fade02a79b8d78b3dcadc8e1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 15/49] fix: log and trace pages carry the witness of their own
 path

---
 src/core_nft/src/queries/http_request.rs | 20 ++++++++++----------
 src/core_nft/src/types/http.rs           |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/core_nft/src/queries/http_request.rs b/src/core_nft/src/queries/http_request.rs
index 1749e87..6575e68 100644
--- a/src/core_nft/src/queries/http_request.rs
+++ b/src/core_nft/src/queries/http_request.rs
@@ -17,16 +17,16 @@ fn http_request(req: HttpRequest) -> HttpResponse {
     let path = req.get_path().expect("Failed to parse request path");
 
     match path.as_str() {
-        "/logs" => serve_logs(bity_ic_canister_logger::export_logs()),
-        "/traces" => serve_logs(bity_ic_canister_logger::export_traces()),
+        "/logs" => serve_logs(bity_ic_canister_logger::export_logs(), "/logs"),
+        "/traces" => serve_logs(bity_ic_canister_logger::export_traces(), "/traces"),
         "/metrics" => serve_metrics(),
         _ => serve_asset(&req),
     }
 }
 
-fn serve_logs(logs: Vec<LogEntry>) -> HttpResponse<'static> {
+fn serve_logs(logs: Vec<LogEntry>, path: &str) -> HttpResponse<'static> {
     ASSET_ROUTER.with_borrow(|_| {
-        let body = serde_json::to_vec(&logs).expect("Failed to serialize metrics");
+        let body = serde_json::to_vec(&logs).expect("Failed to serialize logs");
         let headers = get_asset_headers(vec![
             (
                 CERTIFICATE_EXPRESSION_HEADER_NAME.to_string(),
@@ -47,15 +47,15 @@ fn serve_logs(logs: Vec<LogEntry>) -> HttpResponse<'static> {
         HTTP_TREE.with(|tree| {
             let tree = tree.borrow();
 
-            let metrics_tree_path = HttpCertificationPath::exact("/metrics");
-            let metrics_certification = HttpCertification::skip();
-            let metrics_tree_entry =
-                HttpCertificationTreeEntry::new(&metrics_tree_path, metrics_certification);
+            let logs_tree_path = HttpCertificationPath::exact(path);
+            let logs_certification = HttpCertification::skip();
+            let logs_tree_entry =
+                HttpCertificationTreeEntry::new(&logs_tree_path, logs_certification);
             add_v2_certificate_header(
                 &data_certificate().expect("No data certificate available"),
                 &mut response,
-                &tree.witness(&metrics_tree_entry, "/metrics").unwrap(),
-                &metrics_tree_path.to_expr_path(),
+                &tree.witness(&logs_tree_entry, path).unwrap(),
+                &logs_tree_path.to_expr_path(),
             );
 
             response
diff --git a/src/core_nft/src/types/http.rs b/src/core_nft/src/types/http.rs
index bdff63a..17c93dd 100644
--- a/src/core_nft/src/types/http.rs
+++ b/src/core_nft/src/types/http.rs
@@ -94,7 +94,7 @@ pub fn certify_all_assets() {
         let logs_tree_entry = HttpCertificationTreeEntry::new(logs_tree_path, logs_certification);
         tree.insert(&logs_tree_entry);
 
-        let trace_tree_path = HttpCertificationPath::exact("/trace");
+        let trace_tree_path = HttpCertificationPath::exact("/traces");
         let trace_certification = HttpCertification::skip();
         let trace_tree_entry =
             HttpCertificationTreeEntry::new(trace_tree_path, trace_certification);
-- 
2.43.0


From 5adaa832fd7efe8b872e6892bf8152e64deb8f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 16/49] fix: http pages are certified again after an upgrade

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 746684b..bff6b4a 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -1,7 +1,7 @@
 use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
 use crate::state::{read_state, replace_icrc3, start_default_archive_job, RuntimeState};
-use crate::types::http::add_redirection;
+use crate::types::http::{add_redirection, certify_all_assets};
 use crate::Args;
 
 use bity_ic_canister_logger::LogEntry;
@@ -54,6 +54,7 @@ fn post_upgrade(args: Args) {
             replace_icrc3(icrc3);
             start_default_archive_job();
 
+            certify_all_assets();
             let media_redirections = read_state(|state| state.data.media_redirections.clone());
             for (path, redirection_url) in media_redirections {
                 add_redirection(path, redirection_url);
-- 
2.43.0


From 3167c5622cccbcb7d374400a06a28a6f32cd73de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 17/49] fix: an upgrade releases the management lock of calls
 it interrupted

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index bff6b4a..c860bcf 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -46,6 +46,9 @@ fn post_upgrade(args: Args) {
             // ) = serializer::deserialize(reader).unwrap();
             // let mut state = RuntimeState::from(runtime_state_v0);
 
+            // calls that were pending before the upgrade can no longer release their lock
+            state.principal_guards.clear();
+
             state.env.set_version(upgrade_args.version);
             state.env.set_commit_hash(upgrade_args.commit_hash);
 
-- 
2.43.0


From 6331b5fdfbcdc593d7ff0c35df810b0693c6879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 18/49] fix: an upload can be finalised or cancelled after a
 storage answer was lost

---
 src/core_nft/src/updates/management.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 0545360..5a61701 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -516,6 +516,8 @@ pub async fn finalize_upload(data: finalize_upload::Args) -> finalize_upload::Re
 
     match canister.finalize_upload(data.clone()).await {
         Ok(_) => {}
+        // an earlier attempt reached the storage canister but its answer was lost
+        Err(finalize_upload::FinalizeUploadError::UploadAlreadyFinalized) => {}
         Err(e) => {
             trace(&format!("Error storing chunk: {:?}", e));
             // TODO shall we automaticly cleanup or add a cleanup and let user retry?
@@ -633,6 +635,8 @@ pub async fn cancel_upload(data: cancel_upload::Args) -> cancel_upload::Response
 
     match canister.cancel_upload(data.clone()).await {
         Ok(_) => {}
+        // an earlier attempt reached the storage canister but its answer was lost
+        Err(cancel_upload::CancelUploadError::UploadNotInitialized) => {}
         Err(e) => {
             trace(&format!("Error storing chunk: {:?}", e));
             return Err(e);
-- 
2.43.0


From 311c0842afd1451f595458a3f94d26f52d098a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 19/49] fix: the daily clean-up cancels exactly the unfinished
 uploads older than a day

---
 .../src/jobs/upload_garbage_collector.rs      | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/jobs/upload_garbage_collector.rs b/src/core_nft/src/jobs/upload_garbage_collector.rs
index 64aac02..878f709 100644
--- a/src/core_nft/src/jobs/upload_garbage_collector.rs
+++ b/src/core_nft/src/jobs/upload_garbage_collector.rs
@@ -1,11 +1,12 @@
 use std::time::Duration;
 
-use bity_ic_canister_time::{run_interval, DAY_IN_MS};
+use bity_ic_canister_time::{run_interval, DAY_IN_MS, NANOS_PER_MILLISECOND};
 use bity_ic_storage_canister_api::cancel_upload;
+use bity_ic_storage_canister_api::types::storage::UploadState;
 use bity_ic_storage_canister_c2c::cancel_upload;
 use tracing::{debug, info};
 
-use crate::state::read_state;
+use crate::state::{mutate_state, read_state};
 
 pub fn start_job() {
     run_interval(
@@ -22,7 +23,10 @@ async fn upload_garbage_collector() {
     let all_files = read_state(|state| state.internal_filestorage.get_all_files().clone());
 
     for (file_path, file) in all_files {
-        if file.init_timestamp + DAY_IN_MS > ic_cdk::api::time() {
+        let age = ic_cdk::api::time().saturating_sub(file.init_timestamp);
+
+        if !matches!(file.state, UploadState::Finalized) && age > DAY_IN_MS * NANOS_PER_MILLISECOND
+        {
             let result = cancel_upload(
                 file.canister,
                 cancel_upload::Args {
@@ -32,7 +36,17 @@ async fn upload_garbage_collector() {
             .await;
 
             match result {
-                Ok(_) => {
+                Ok(Ok(_)) | Ok(Err(cancel_upload::CancelUploadError::UploadNotInitialized)) => {
+                    mutate_state(|state| {
+                        // leave alone an upload that was finalised or started anew meanwhile
+                        let unchanged = state.internal_filestorage.get(&file_path).is_some_and(|f| {
+                            f.init_timestamp == file.init_timestamp
+                                && !matches!(f.state, UploadState::Finalized)
+                        });
+                        if unchanged {
+                            state.internal_filestorage.remove(&file_path);
+                        }
+                    });
                     debug!("Successfully canceled upload for file {}", file_path);
                 }
                 Err(err) => {
-- 
2.43.0


From 4538deeb90c1e71d3ae933da12bdb9e686bb2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 20/49] fix: collection metadata given at start or by an update
 is kept and reported

---
 src/core_nft/src/lifecycle/init.rs     |  7 +++++++
 src/core_nft/src/queries/icrc7.rs      | 11 +++++++++++
 src/core_nft/src/updates/management.rs |  8 ++++++++
 3 files changed, 26 insertions(+)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index 6bdf194..40dd8d5 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -6,6 +6,7 @@ use crate::lifecycle::Args;
 pub use crate::state::InitApprovalsArg;
 use crate::state::{init_icrc3, start_default_archive_job, Data, RuntimeState};
 use crate::types::http::certify_all_assets;
+use crate::types::metadata::__METADATA;
 use crate::types::permissions::{Permission, PermissionManager};
 use crate::types::value_custom::CustomValue as Value;
 
@@ -170,6 +171,12 @@ fn init(args: Args) {
                 ),
             };
 
+            __METADATA.with_borrow_mut(|m| {
+                for (key, value) in init_args.collection_metadata {
+                    m.insert_data(None, key, value);
+                }
+            });
+
             let runtime_state = RuntimeState::new(env, data);
 
             init_canister(runtime_state);
diff --git a/src/core_nft/src/queries/icrc7.rs b/src/core_nft/src/queries/icrc7.rs
index 87283a4..fba6e68 100644
--- a/src/core_nft/src/queries/icrc7.rs
+++ b/src/core_nft/src/queries/icrc7.rs
@@ -99,6 +99,17 @@ pub fn icrc7_collection_metadata() -> icrc7::icrc7_collection_metadata::Response
             ));
         }
 
+        // the collection's own metadata is stored under the reserved id 0
+        if let Ok(collection_metadata) =
+            __METADATA.with_borrow(|m| m.get_all_data(Some(Nat::from(0u64))))
+        {
+            for (key, value) in collection_metadata {
+                if metadata.iter().all(|(k, _)| *k != key) {
+                    metadata.push((key, value.0));
+                }
+            }
+        }
+
         metadata.sort_by(|a, b| a.0.cmp(&b.0));
         metadata
     })
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 5a61701..a5778ef 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -118,6 +118,14 @@ pub async fn update_collection_metadata(
         });
     }
 
+    if let Some(collection_metadata) = req.collection_metadata {
+        __METADATA.with_borrow_mut(|m| {
+            for (key, value) in collection_metadata {
+                m.insert_data(None, key, value);
+            }
+        });
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From d25b99cf867d757cceb38d4a741d7d2d82386fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 21/49] fix: overlapping index runs neither index a block twice
 nor move the position back

---
 src/index_icrc7/src/jobs.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/index_icrc7/src/jobs.rs b/src/index_icrc7/src/jobs.rs
index 40df08e..9849225 100644
--- a/src/index_icrc7/src/jobs.rs
+++ b/src/index_icrc7/src/jobs.rs
@@ -35,7 +35,7 @@ fn update_index_job() {
 }
 
 async fn update_index() {
-    let mut last_block_id: u64 = read_state(|state| state.data.last_block_id);
+    let last_block_id: u64 = read_state(|state| state.data.last_block_id);
 
     // Generate block IDs array starting from last_block_id and incrementing
     let block_ids: Vec<u64> = (last_block_id..last_block_id + BLOCK_BATCH_SIZE).collect();
@@ -44,22 +44,21 @@ async fn update_index() {
     match blocks {
         Ok(blocks) => {
             for block in blocks {
-                match add_block_to_index(&block) {
-                    Ok(_) => {
-                        last_block_id += 1;
-                    }
-                    Err(e) => {
-                        break;
-                    }
+                // Another run may have indexed blocks while this one was waiting.
+                let next_block_id = read_state(|state| state.data.last_block_id);
+                if block.id < next_block_id {
+                    continue;
                 }
+                if block.id > next_block_id || add_block_to_index(&block).is_err() {
+                    break;
+                }
+                mutate_state(|state| {
+                    state.data.last_block_id = next_block_id + 1;
+                });
             }
         }
         Err(e) => {
             ic_cdk::trap(e);
         }
     }
-
-    mutate_state(|state| {
-        state.data.last_block_id = last_block_id;
-    });
 }
-- 
2.43.0


From 7f8520d92f85d915cf9f557b3c1938aad25c18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 22/49] fix: transfers on behalf are indexed by their token

---
 src/index_icrc7/src/blocks.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index aee2cd0..838b99c 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -354,7 +354,20 @@ impl TransactionDataExtractor for TransferFromBlock {
     }
 
     fn extract_token_id(&self, data: &ICRC3Value) -> Result<Option<WrappedNat>, String> {
-        return Ok(None);
+        match data {
+            ICRC3Value::Map(map) => {
+                if let Some(ICRC3Value::Map(tx)) = map.get("tx") {
+                    if let Some(ICRC3Value::Nat(token_id)) = tx.get("tid") {
+                        Ok(Some(WrappedNat(token_id.clone())))
+                    } else {
+                        Err("Missing or invalid token ID field".to_string())
+                    }
+                } else {
+                    Err("Invalid transaction data".to_string())
+                }
+            }
+            _ => Err("TransferFrom transaction data must be a map".to_string()),
+        }
     }
 }
 
-- 
2.43.0


From 0e9603908cadc8682b569ff1dbe9475c66ec5e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 23/49] fix: collection approvals are indexed by their spender

---
 src/index_icrc7/src/blocks.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index 838b99c..99f8a65 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -418,6 +418,11 @@ impl TransactionDataExtractor for CollectionApproveBlock {
                             accounts.push(account);
                         }
                     }
+                    if let Some(ICRC3Value::Text(spender)) = tx.get("spender") {
+                        if let Ok(account) = WrappedAccount::from_str(spender) {
+                            accounts.push(account);
+                        }
+                    }
                 }
                 Ok(accounts)
             }
-- 
2.43.0


From 96d11cea514af8a44c99600e47648cda736020d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 24/49] fix: a block naming an account twice is indexed once
 for it

---
 src/index_icrc7/src/index.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/index.rs b/src/index_icrc7/src/index.rs
index 0c70b1d..c0416cb 100644
--- a/src/index_icrc7/src/index.rs
+++ b/src/index_icrc7/src/index.rs
@@ -91,7 +91,10 @@ pub fn add_block_to_index(block: &BlockWithId) -> Result<(), String> {
     };
 
     let block_instance = get_block_instance(&block_type);
-    let accounts = block_instance.extract_accounts(data).unwrap_or_default();
+    let mut accounts = block_instance.extract_accounts(data).unwrap_or_default();
+    // A block may name the same account more than once.
+    accounts.sort();
+    accounts.dedup();
     let token_id = block_instance.extract_token_id(data).unwrap_or_default();
     let _timestamp = block_instance.extract_timestamp(data).unwrap_or_default();
 
-- 
2.43.0


From 8df71d7f0de5ed58acc016842af7e4ad5114bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 25/49] fix: the cache clean-up no longer borrows the cache
 twice

---
 src/index_icrc7/src/cache.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/index_icrc7/src/cache.rs b/src/index_icrc7/src/cache.rs
index cf8e02f..2c562c6 100644
--- a/src/index_icrc7/src/cache.rs
+++ b/src/index_icrc7/src/cache.rs
@@ -68,16 +68,16 @@ pub fn try_get_value_with_timestamp(key: u64) -> Option<(u64, CustomValue)> {
 
 pub fn remove_all_values_older_than(timestamp: &u64) -> bool {
     __CACHE.with(|cache| {
-        cache
+        let keys = cache
             .borrow()
             .iter()
             .filter(|(_, entry)| entry.timestamp < *timestamp)
             .map(|(key, _)| key)
-            .collect::<Vec<_>>()
-            .into_iter()
-            .for_each(|key| {
-                cache.borrow_mut().remove(&key);
-            });
+            .collect::<Vec<_>>();
+
+        for key in keys {
+            cache.borrow_mut().remove(&key);
+        }
 
         true
     })
-- 
2.43.0


From 8d7b0f9eee237f6ad501d36cb67333c03e1c9139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 26/49] fix: blocks holding numbers beyond 64 bits are cached
 instead of trapping

---
 src/index_icrc7/src/wrapped_values.rs | 40 ++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/index_icrc7/src/wrapped_values.rs b/src/index_icrc7/src/wrapped_values.rs
index cbd2a30..bc75fe2 100644
--- a/src/index_icrc7/src/wrapped_values.rs
+++ b/src/index_icrc7/src/wrapped_values.rs
@@ -1,4 +1,4 @@
-use candid::{CandidType, Nat, Principal};
+use candid::{CandidType, Int, Nat, Principal};
 use ic_stable_structures::{storable::Bound, Storable};
 use icrc_ledger_types::icrc::generic_value::ICRC3Value as Value;
 use icrc_ledger_types::icrc1::account::Account;
@@ -181,14 +181,30 @@ impl<C> minicbor::Encode<C> for CustomValue {
                 e.array(2)?.u8(1)?.str(t)?;
             }
             Value::Nat(n) => {
-                e.array(2)?
-                    .u8(2)?
-                    .u64(u64::try_from(n.0.clone()).unwrap())?;
+                e.array(2)?.u8(2)?;
+                match u64::try_from(n.0.clone()) {
+                    Ok(n) => e.u64(n)?,
+                    // does not fit: LEB128 bytes
+                    Err(_) => {
+                        let mut bytes = Vec::new();
+                        n.encode(&mut bytes)
+                            .map_err(minicbor::encode::Error::message)?;
+                        e.bytes(&bytes)?
+                    }
+                };
             }
             Value::Int(i) => {
-                e.array(2)?
-                    .u8(3)?
-                    .i64(i64::try_from(i.0.clone()).unwrap())?;
+                e.array(2)?.u8(3)?;
+                match i64::try_from(i.0.clone()) {
+                    Ok(i) => e.i64(i)?,
+                    // does not fit: SLEB128 bytes
+                    Err(_) => {
+                        let mut bytes = Vec::new();
+                        i.encode(&mut bytes)
+                            .map_err(minicbor::encode::Error::message)?;
+                        e.bytes(&bytes)?
+                    }
+                };
             }
             Value::Array(arr) => {
                 e.array(2)?.u8(4)?;
@@ -231,10 +247,20 @@ impl<'b, C> minicbor::Decode<'b, C> for CustomValue {
                 Value::Text(s)
             }
             2 => {
+                if d.datatype()? == minicbor::data::Type::Bytes {
+                    let n =
+                        Nat::decode(&mut d.bytes()?).map_err(minicbor::decode::Error::message)?;
+                    return Ok(CustomValue(Value::Nat(n)));
+                }
                 let n = d.u64()?;
                 Value::Nat(n.into())
             }
             3 => {
+                if d.datatype()? == minicbor::data::Type::Bytes {
+                    let i =
+                        Int::decode(&mut d.bytes()?).map_err(minicbor::decode::Error::message)?;
+                    return Ok(CustomValue(Value::Int(i)));
+                }
                 let i = d.i64()?;
                 Value::Int(i.into())
             }
-- 
2.43.0


From 340cb3b802e24952087b2f429aa6c9a849956620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 27/49] fix: index queries by a token id beyond 64 bits are
 answered

---
 src/index_icrc7/src/wrapped_values.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/wrapped_values.rs b/src/index_icrc7/src/wrapped_values.rs
index bc75fe2..869e5f0 100644
--- a/src/index_icrc7/src/wrapped_values.rs
+++ b/src/index_icrc7/src/wrapped_values.rs
@@ -48,7 +48,17 @@ impl<C> minicbor::Encode<C> for WrappedNat {
         e: &mut Encoder<W>,
         _ctx: &mut C,
     ) -> Result<(), minicbor::encode::Error<W::Error>> {
-        e.u64(u64::try_from(self.0 .0.clone()).unwrap())?;
+        match u64::try_from(self.0 .0.clone()) {
+            Ok(n) => e.u64(n)?,
+            // does not fit: LEB128 bytes
+            Err(_) => {
+                let mut bytes = Vec::new();
+                self.0
+                    .encode(&mut bytes)
+                    .map_err(minicbor::encode::Error::message)?;
+                e.bytes(&bytes)?
+            }
+        };
         Ok(())
     }
 }
@@ -58,6 +68,10 @@ impl<'b, C> minicbor::Decode<'b, C> for WrappedNat {
         d: &mut minicbor::Decoder<'b>,
         _ctx: &mut C,
     ) -> Result<Self, minicbor::decode::Error> {
+        if d.datatype()? == minicbor::data::Type::Bytes {
+            let nat = Nat::decode(&mut d.bytes()?).map_err(minicbor::decode::Error::message)?;
+            return Ok(WrappedNat(nat));
+        }
         let nat = d.u64()?;
         Ok(WrappedNat(Nat::from(nat)))
     }
-- 
2.43.0


From 44ed51de9cc7dedcb827c684dce1884f6965b96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 28/49] fix: index pages at the ends of the number range
 neither trap nor wrap around

---
 src/index_icrc7/src/jobs.rs              |  2 +-
 src/index_icrc7/src/update/get_blocks.rs | 17 +++++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/index_icrc7/src/jobs.rs b/src/index_icrc7/src/jobs.rs
index 9849225..e642449 100644
--- a/src/index_icrc7/src/jobs.rs
+++ b/src/index_icrc7/src/jobs.rs
@@ -10,7 +10,7 @@ use bity_ic_canister_time::{run_interval, DAY_IN_MS, MINUTE_IN_MS};
 
 const CACHE_CLEANUP_INTERVAL: u64 = DAY_IN_MS;
 const UPDATE_INDEX_INTERVAL: u64 = MINUTE_IN_MS;
-const BLOCK_BATCH_SIZE: u64 = 100;
+pub const BLOCK_BATCH_SIZE: u64 = 100;
 
 pub fn start_job() {
     run_interval(Duration::from_millis(DAY_IN_MS), cleanup_cache_job);
diff --git a/src/index_icrc7/src/update/get_blocks.rs b/src/index_icrc7/src/update/get_blocks.rs
index 1bc0ff6..ed297f4 100644
--- a/src/index_icrc7/src/update/get_blocks.rs
+++ b/src/index_icrc7/src/update/get_blocks.rs
@@ -2,6 +2,7 @@ use ic_cdk::update;
 
 use crate::blocks::get_all_blocks;
 use crate::index::{IndexType, IndexValue, SortBy, __INDEX};
+use crate::jobs::BLOCK_BATCH_SIZE;
 use crate::state::read_state;
 use crate::types::get_blocks;
 
@@ -17,7 +18,12 @@ pub async fn get_blocks(args: get_blocks::Args) -> get_blocks::Response {
             start = read_state(|state| state.data.last_block_id).saturating_sub(length);
         }
 
-        let block_range: Vec<u64> = (start..start + length).collect();
+        // Nothing is known to exist further than a batch beyond the indexed blocks.
+        let end = read_state(|state| state.data.last_block_id)
+            .max(start)
+            .saturating_add(BLOCK_BATCH_SIZE)
+            .min(start.saturating_add(length));
+        let block_range: Vec<u64> = (start..end).collect();
         match get_all_blocks(block_range, Some(sort_by.clone())).await {
             Ok(gblocks) => gblocks,
             Err(e) => {
@@ -67,14 +73,13 @@ async fn get_blocks_with_filters(
 
     combined_block_ids.sort();
 
-    let start_idx = start as usize;
-    let end_idx = (start + length) as usize;
-
-    if start_idx >= combined_block_ids.len() {
+    let matches = combined_block_ids.len() as u64;
+    if start >= matches {
         return Vec::new();
     }
 
-    let end_idx = end_idx.min(combined_block_ids.len());
+    let start_idx = start as usize;
+    let end_idx = start.saturating_add(length).min(matches) as usize;
     let paginated_block_ids = &combined_block_ids[start_idx..end_idx];
 
     let block_range: Vec<u64> = paginated_block_ids.to_vec();
-- 
2.43.0


From f3f989608c97b2a087b5151f86ac6f2405dc6038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:47 +0000
Subject: [PATCH 29/49] fix: block ranges beyond the log are answered instead
 of trapping

---
 src/core_nft/src/queries/icrc3.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/queries/icrc3.rs b/src/core_nft/src/queries/icrc3.rs
index f7b57f6..d985b43 100644
--- a/src/core_nft/src/queries/icrc3.rs
+++ b/src/core_nft/src/queries/icrc3.rs
@@ -17,7 +17,7 @@ pub use crate::types::icrc3::{
         Args as GetSupportedBlockTypesArg, Response as GetSupportedBlockTypesResponse,
     },
 };
-pub use icrc_ledger_types::icrc3::blocks::GetBlocksResult;
+pub use icrc_ledger_types::icrc3::blocks::{GetBlocksRequest, GetBlocksResult};
 
 #[query]
 async fn icrc3_get_archives(_: GetArchivesArg) -> GetArchivesResponse {
@@ -26,6 +26,16 @@ async fn icrc3_get_archives(_: GetArchivesArg) -> GetArchivesResponse {
 
 #[query]
 fn icrc3_get_blocks(args: GetBlocksArg) -> GetBlocksResult {
+    // Only ranges of existing blocks are looked up.
+    let log_length = icrc3_get_blocks_impl(vec![]).log_length;
+    let args = args
+        .into_iter()
+        .map(|arg| {
+            let start = arg.start.min(log_length.clone());
+            let length = arg.length.min(log_length.clone() - start.clone());
+            GetBlocksRequest { start, length }
+        })
+        .collect();
     icrc3_get_blocks_impl(args)
 }
 
-- 
2.43.0


From 2376524adafb02b8da38783f918a61d5a5fd8015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 30/49] fix: limits, page sizes and cursors beyond 32 bits are
 not replaced by the defaults

---
 src/core_nft/src/queries/icrc37.rs     |  4 ++--
 src/core_nft/src/queries/icrc7.rs      | 10 +++++-----
 src/core_nft/src/updates/icrc37.rs     |  8 ++++----
 src/core_nft/src/updates/management.rs |  4 ++--
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index f452485..f659f47 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -25,7 +25,7 @@ fn icrc37_get_token_approvals(
     }
 
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     if let Some(approvals_map) = __TOKEN_APPROVALS
@@ -87,7 +87,7 @@ fn icrc37_get_collection_approvals(
 ) -> icrc37_get_collection_approvals::Response {
     let mut response = Vec::new();
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     let mut all_approvals: Vec<icrc37_get_collection_approvals::CollectionApproval> =
diff --git a/src/core_nft/src/queries/icrc7.rs b/src/core_nft/src/queries/icrc7.rs
index fba6e68..d996b68 100644
--- a/src/core_nft/src/queries/icrc7.rs
+++ b/src/core_nft/src/queries/icrc7.rs
@@ -195,7 +195,7 @@ pub fn icrc7_token_metadata(
 
     if token_ids.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -229,7 +229,7 @@ pub fn icrc7_owner_of(token_ids: icrc7::icrc7_owner_of::Args) -> icrc7::icrc7_ow
 
     if token_ids.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -255,7 +255,7 @@ pub fn icrc7_balance_of(
 
     if accounts.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -301,7 +301,7 @@ pub fn icrc7_tokens(
             })
             .0,
         )
-        .unwrap_or(icrc7::DEFAULT_TAKE_VALUE);
+        .unwrap_or(usize::MAX);
 
         let mut tokens: Vec<_> = state.data.tokens_list.keys().cloned().collect();
         tokens.sort();
@@ -344,7 +344,7 @@ pub fn icrc7_tokens_of(
             })
             .0,
         )
-        .unwrap_or(icrc7::DEFAULT_TAKE_VALUE);
+        .unwrap_or(usize::MAX);
 
         let mut tokens: Vec<Nat> = state.data.tokens_ids_of_account(&account);
         tokens.sort();
diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index cd5603d..c642531 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -130,7 +130,7 @@ fn approve_token(
         ))
         .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     let memo_clone = arg.approval_info.memo.clone();
 
@@ -308,7 +308,7 @@ fn approve_collection(
         ))
         .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     let would_exceed_max_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
         collection_approvals
@@ -409,7 +409,7 @@ fn icrc37_revoke_token_approvals(
             ))
             .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     Ok(args
         .into_iter()
@@ -535,7 +535,7 @@ fn icrc37_revoke_collection_approvals(
             ))
             .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     Ok(args
         .into_iter()
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index a5778ef..40d488e 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -590,8 +590,8 @@ pub fn get_all_uploads(
 ) -> management::get_all_uploads::Response {
     trace(&format!("prev: {:?}, take: {:?}", prev, take));
     let all_uploads = read_state(|state| state.internal_filestorage.clone());
-    let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(0);
-    let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(100);
+    let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(usize::MAX);
+    let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(usize::MAX);
     trace(&format!("start: {:?}, end: {:?}", start, end));
     let filtered_uploads: HashMap<String, UploadState> = all_uploads
         .map
-- 
2.43.0


From aa2aa30a6b31151a4fed19b8e16932f7d19849b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 31/49] fix: approval lists name the subaccount the approval
 was given from

---
 src/core_nft/src/queries/icrc37.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index f659f47..435585a 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -35,11 +35,11 @@ fn icrc37_get_token_approvals(
             .0
             .iter()
             .map(
-                |(account, approval)| icrc37_get_token_approvals::TokenApproval {
+                |(_, approval)| icrc37_get_token_approvals::TokenApproval {
                     token_id: token_id.clone(),
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
@@ -99,10 +99,10 @@ fn icrc37_get_collection_approvals(
             .unwrap_or(HashMap::new())
             .iter()
             .map(
-                |(account, approval)| icrc37_get_collection_approvals::CollectionApproval {
+                |(_, approval)| icrc37_get_collection_approvals::CollectionApproval {
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
-- 
2.43.0


From e2ab7a01de4c7bada4c1972ec428837bd09144cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:33 +0000
Subject: [PATCH 32/49] fix: metadata integers the log cannot hash are refused
 instead of trapping

---
 src/core_nft/src/updates/management.rs |  7 ++++++-
 src/core_nft/src/utils.rs              | 19 +++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 40d488e..473e383 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -9,7 +9,7 @@ use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
 use crate::types::wrapped_types::WrappedNat;
 use crate::types::{icrc7, management, nft, __TOKEN_APPROVALS};
-use crate::utils::{check_memo, trace};
+use crate::utils::{check_memo, check_metadata, trace};
 
 pub use crate::types::management::{
     cancel_upload, finalize_upload, get_user_permissions, grant_permission, has_permission,
@@ -170,6 +170,8 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
                 return Err(management::mint::MintError::InvalidMemo);
             }
         }
+        check_metadata(&mint_request.metadata)
+            .map_err(management::mint::MintError::StorageCanisterError)?;
     }
 
     let mut new_tokens = Vec::new();
@@ -249,6 +251,9 @@ pub fn update_nft_metadata(
         management::update_nft_metadata::UpdateNftMetadataError::ConcurrentManagementCall
     })?;
 
+    check_metadata(&req.metadata)
+        .map_err(management::update_nft_metadata::UpdateNftMetadataError::StorageCanisterError)?;
+
     let token_name_hash = req.token_id;
 
     let token_list = read_state(|state| state.data.tokens_list.clone());
diff --git a/src/core_nft/src/utils.rs b/src/core_nft/src/utils.rs
index ca5f32a..9013c01 100644
--- a/src/core_nft/src/utils.rs
+++ b/src/core_nft/src/utils.rs
@@ -1,6 +1,7 @@
 use crate::state::read_state;
 use crate::types::icrc7;
 use candid::Nat;
+use icrc_ledger_types::icrc::generic_value::ICRC3Value;
 
 pub fn check_memo(memo: Option<serde_bytes::ByteBuf>) -> Result<(), String> {
     if let Some(ref memo) = memo {
@@ -27,6 +28,24 @@ pub fn check_memo(memo: Option<serde_bytes::ByteBuf>) -> Result<(), String> {
     Ok(())
 }
 
+// the transaction log cannot hash integers beyond 128 bits
+pub fn check_metadata(metadata: &[(String, ICRC3Value)]) -> Result<(), String> {
+    fn loggable(value: &ICRC3Value) -> bool {
+        match value {
+            ICRC3Value::Int(i) => i128::try_from(i.0.clone()).is_ok(),
+            ICRC3Value::Array(values) => values.iter().all(loggable),
+            ICRC3Value::Map(map) => map.values().all(loggable),
+            _ => true,
+        }
+    }
+
+    if metadata.iter().all(|(_, value)| loggable(value)) {
+        Ok(())
+    } else {
+        Err("Metadata integers must fit into 128 bits".to_string())
+    }
+}
+
 pub fn trace(msg: &str) {
     unsafe {
         ic0::debug_print(msg.as_ptr() as usize, msg.len() as usize);
-- 
2.43.0


From f5858b419da712d668c2e2288b3981a1a7b6f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:31 +0000
Subject: [PATCH 33/49] fix: a logged metadata update with integers no longer
 breaks the next upgrade

---
 src/core_nft/src/lifecycle/post_upgrade.rs |  6 +-
 src/core_nft/src/types/mod.rs              |  1 +
 src/core_nft/src/types/stored_icrc3.rs     | 67 ++++++++++++++++++++++
 3 files changed, 71 insertions(+), 3 deletions(-)
 create mode 100644 src/core_nft/src/types/stored_icrc3.rs

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index c860bcf..6427aa5 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -2,11 +2,11 @@ use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
 use crate::state::{read_state, replace_icrc3, start_default_archive_job, RuntimeState};
 use crate::types::http::{add_redirection, certify_all_assets};
+use crate::types::stored_icrc3::StoredIcrc3;
 use crate::Args;
 
 use bity_ic_canister_logger::LogEntry;
 use bity_ic_canister_tracing_macros::trace;
-use bity_ic_icrc3::icrc3::ICRC3;
 use bity_ic_stable_memory::get_reader;
 use bity_ic_types::BuildVersion;
 
@@ -34,7 +34,7 @@ fn post_upgrade(args: Args) {
             let reader = get_reader(&memory);
 
             // uncomment these lines if you want to do a normal upgrade
-            let (mut state, logs, traces, icrc3): (RuntimeState, Vec<LogEntry>, Vec<LogEntry>, ICRC3) = bity_ic_serializer
+            let (mut state, logs, traces, icrc3): (RuntimeState, Vec<LogEntry>, Vec<LogEntry>, StoredIcrc3) = bity_ic_serializer
                 ::deserialize(reader)
                 .unwrap();
 
@@ -54,7 +54,7 @@ fn post_upgrade(args: Args) {
 
             bity_ic_canister_logger::init_with_logs(state.env.is_test_mode(), logs, traces);
             init_canister(state.clone());
-            replace_icrc3(icrc3);
+            replace_icrc3(icrc3.into());
             start_default_archive_job();
 
             certify_all_assets();
diff --git a/src/core_nft/src/types/mod.rs b/src/core_nft/src/types/mod.rs
index 8a39ca9..2c972c9 100644
--- a/src/core_nft/src/types/mod.rs
+++ b/src/core_nft/src/types/mod.rs
@@ -9,6 +9,7 @@ pub mod management;
 pub mod metadata;
 pub mod nft;
 pub mod permissions;
+pub mod stored_icrc3;
 pub mod sub_canister;
 pub mod value_custom;
 pub mod wrapped_types;
diff --git a/src/core_nft/src/types/stored_icrc3.rs b/src/core_nft/src/types/stored_icrc3.rs
new file mode 100644
index 0000000..6896db9
--- /dev/null
+++ b/src/core_nft/src/types/stored_icrc3.rs
@@ -0,0 +1,67 @@
+use bity_ic_icrc3::{blockchain::blockchain::Blockchain, config::ICRC3Config, icrc3::ICRC3};
+use bity_ic_types::TimestampNanos;
+use candid::{Int, Nat};
+use icrc_ledger_types::icrc::generic_value::ICRC3Value;
+use serde::Deserialize;
+use serde_bytes::ByteBuf;
+use std::collections::{BTreeMap, VecDeque};
+
+/// `ICRC3` as it is written before an upgrade. `Int` is written as its sign and base 2^32 digits,
+/// a form which it cannot be read from, so the remembered transactions are read as `StoredValue`.
+#[derive(Deserialize)]
+pub struct StoredIcrc3 {
+    blockchain: Blockchain,
+    ledger: VecDeque<StoredValue>,
+    prepared_transactions: VecDeque<(String, TimestampNanos)>,
+    next_index: u64,
+    last_phash: Option<ByteBuf>,
+    icrc3_config: ICRC3Config,
+}
+
+#[derive(Deserialize)]
+enum StoredValue {
+    Blob(ByteBuf),
+    Text(String),
+    Nat(Nat),
+    Int((i8, Vec<u32>)),
+    Array(Vec<StoredValue>),
+    Map(BTreeMap<String, StoredValue>),
+}
+
+impl From<StoredIcrc3> for ICRC3 {
+    fn from(stored: StoredIcrc3) -> Self {
+        ICRC3 {
+            blockchain: stored.blockchain,
+            ledger: stored.ledger.into_iter().map(ICRC3Value::from).collect(),
+            prepared_transactions: stored.prepared_transactions,
+            next_index: stored.next_index,
+            last_phash: stored.last_phash,
+            icrc3_config: stored.icrc3_config,
+        }
+    }
+}
+
+impl From<StoredValue> for ICRC3Value {
+    fn from(stored: StoredValue) -> Self {
+        match stored {
+            StoredValue::Blob(b) => ICRC3Value::Blob(b),
+            StoredValue::Text(t) => ICRC3Value::Text(t),
+            StoredValue::Nat(n) => ICRC3Value::Nat(n),
+            StoredValue::Int((sign, digits)) => {
+                let magnitude = digits
+                    .into_iter()
+                    .rev()
+                    .fold(Int::from(0), |acc, digit| acc * (1u64 << 32) + digit);
+                ICRC3Value::Int(magnitude * sign)
+            }
+            StoredValue::Array(values) => {
+                ICRC3Value::Array(values.into_iter().map(ICRC3Value::from).collect())
+            }
+            StoredValue::Map(map) => ICRC3Value::Map(
+                map.into_iter()
+                    .map(|(key, value)| (key, ICRC3Value::from(value)))
+                    .collect(),
+            ),
+        }
+    }
+}
-- 
2.43.0


From f63c67e938a0a5645c82baa5af8ce3a5cf95c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:01 +0000
Subject: [PATCH 34/49] fix: a path is in use with or without its leading slash

---
 src/core_nft/src/state.rs              | 5 ++++-
 src/core_nft/src/types/http.rs         | 9 +++++++++
 src/core_nft/src/updates/management.rs | 8 ++------
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/core_nft/src/state.rs b/src/core_nft/src/state.rs
index 10524b6..cc18a1d 100644
--- a/src/core_nft/src/state.rs
+++ b/src/core_nft/src/state.rs
@@ -1,3 +1,4 @@
+use crate::types::http::request_path;
 use crate::types::nft::Icrc7Token;
 use crate::types::permissions::{Permission, PermissionManager};
 use crate::types::sub_canister;
@@ -310,7 +311,9 @@ impl InternalFilestorage {
     }
 
     pub fn contains_path(&self, path: &str) -> bool {
-        self.map.values().any(|data| data.path == path)
+        // a leading slash makes no difference to where the file is served
+        let path = request_path(path);
+        self.map.values().any(|data| request_path(&data.path) == path)
     }
 
     pub fn get_all_files(&self) -> Vec<(String, InternalFilestorageData)> {
diff --git a/src/core_nft/src/types/http.rs b/src/core_nft/src/types/http.rs
index 17c93dd..a4b08af 100644
--- a/src/core_nft/src/types/http.rs
+++ b/src/core_nft/src/types/http.rs
@@ -26,6 +26,15 @@ thread_local! {
 // const IMMUTABLE_ASSET_CACHE_CONTROL: &str = "public, max-age=31536000, immutable";
 pub const NO_CACHE_ASSET_CACHE_CONTROL: &str = "public, no-cache, no-store";
 
+/// The path at which an uploaded file is requested from the collection.
+pub fn request_path(file_path: &str) -> String {
+    if file_path.starts_with('/') {
+        file_path.to_string()
+    } else {
+        format!("/{}", file_path)
+    }
+}
+
 pub fn add_redirection(from_url: String, to_url: String) -> Option<()> {
     trace(&format!(
         "add_redirection: from_url: {}, to_url: {}",
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 473e383..ec8ac42 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -4,7 +4,7 @@ use crate::guards::{
     caller_has_update_metadata_permission, caller_has_update_uploads_permission, GuardManagement,
 };
 use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFilestorageData};
-use crate::types::http::add_redirection;
+use crate::types::http::{add_redirection, request_path};
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
 use crate::types::wrapped_types::WrappedNat;
@@ -538,11 +538,7 @@ pub async fn finalize_upload(data: finalize_upload::Args) -> finalize_upload::Re
         }
     }
 
-    let path = if media_path.starts_with('/') {
-        media_path.clone()
-    } else {
-        format!("/{}", media_path)
-    };
+    let path = request_path(&media_path);
 
     let redirection_url = format!("https://{}.raw.icp0.io{}", canister_id, path.clone());
 
-- 
2.43.0


From fdbf7a70054ab1bc7cc50a1be04367f49a741277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:01 +0000
Subject: [PATCH 35/49] fix: uploads to paths that can never be served are
 refused at the start

---
 src/core_nft/src/types/http.rs         | 12 +++++++++++-
 src/core_nft/src/updates/management.rs |  8 +++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/types/http.rs b/src/core_nft/src/types/http.rs
index a4b08af..393ba2d 100644
--- a/src/core_nft/src/types/http.rs
+++ b/src/core_nft/src/types/http.rs
@@ -2,7 +2,7 @@ use ic_asset_certification::{AssetConfig, AssetRedirectKind, AssetRouter};
 use ic_cdk::api::certified_data_set;
 use ic_http_certification::{
     HeaderField, HttpCertification, HttpCertificationPath, HttpCertificationTree,
-    HttpCertificationTreeEntry,
+    HttpCertificationTreeEntry, HttpRequest,
 };
 use std::{cell::RefCell, rc::Rc};
 
@@ -35,6 +35,16 @@ pub fn request_path(file_path: &str) -> String {
     }
 }
 
+/// Whether a request for the path of a file can reach its redirection.
+pub fn is_servable(file_path: &str) -> bool {
+    let path = request_path(file_path);
+    !matches!(path.as_str(), "/logs" | "/traces" | "/metrics")
+        && HttpRequest::get(path.clone())
+            .build()
+            .get_path()
+            .is_ok_and(|requested| requested == path)
+}
+
 pub fn add_redirection(from_url: String, to_url: String) -> Option<()> {
     trace(&format!(
         "add_redirection: from_url: {}, to_url: {}",
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index ec8ac42..02f9a16 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -4,7 +4,7 @@ use crate::guards::{
     caller_has_update_metadata_permission, caller_has_update_uploads_permission, GuardManagement,
 };
 use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFilestorageData};
-use crate::types::http::{add_redirection, request_path};
+use crate::types::http::{add_redirection, is_servable, request_path};
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
 use crate::types::wrapped_types::WrappedNat;
@@ -402,6 +402,12 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
         return Err(init_upload::InitUploadError::FileAlreadyExists);
     }
 
+    if !is_servable(&data.file_path) {
+        return Err(init_upload::InitUploadError::StorageCanisterError(
+            "The file could not be served at this path".to_string(),
+        ));
+    }
+
     let mut sub_canister_manager = read_state(|state| state.data.sub_canister_manager.clone());
 
     let canister = match sub_canister_manager.init_upload(data.clone()).await {
-- 
2.43.0


From dfa61895b1e8ac17434c475fa8b49b4c5a2d98a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:01 +0000
Subject: [PATCH 36/49] fix: requests for unknown or malformed paths are
 answered instead of trapping

---
 src/core_nft/src/queries/http_request.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/queries/http_request.rs b/src/core_nft/src/queries/http_request.rs
index 6575e68..a4db5e2 100644
--- a/src/core_nft/src/queries/http_request.rs
+++ b/src/core_nft/src/queries/http_request.rs
@@ -14,7 +14,10 @@ use crate::state::read_state;
 
 #[query(hidden = true)]
 fn http_request(req: HttpRequest) -> HttpResponse {
-    let path = req.get_path().expect("Failed to parse request path");
+    let path = match req.get_path() {
+        Ok(path) => path,
+        Err(_) => return HttpResponse::bad_request(b"Bad request", vec![]).build(),
+    };
 
     match path.as_str() {
         "/logs" => serve_logs(bity_ic_canister_logger::export_logs(), "/logs"),
@@ -111,7 +114,7 @@ fn serve_asset(req: &HttpRequest) -> HttpResponse<'static> {
         ) {
             response
         } else {
-            ic_cdk::trap("Failed to serve asset");
+            HttpResponse::not_found(b"Not found", vec![]).build()
         }
     })
 }
-- 
2.43.0


From 390c919decef6ccb65fe68dcc877176a46f6619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:18 +0000
Subject: [PATCH 37/49] fix: an upload whose finalising answer was lost is not
 redirected to a file that is gone

The storage canister drops a finalised file when it is asked to finalise it
again, so this answer does not mean that the file is there. The upload can be
cancelled and started over.
---
 src/core_nft/src/updates/management.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 02f9a16..342b529 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -535,8 +535,6 @@ pub async fn finalize_upload(data: finalize_upload::Args) -> finalize_upload::Re
 
     match canister.finalize_upload(data.clone()).await {
         Ok(_) => {}
-        // an earlier attempt reached the storage canister but its answer was lost
-        Err(finalize_upload::FinalizeUploadError::UploadAlreadyFinalized) => {}
         Err(e) => {
             trace(&format!("Error storing chunk: {:?}", e));
             // TODO shall we automaticly cleanup or add a cleanup and let user retry?
-- 
2.43.0


From 4187b97a41d0cba1bc00ab6e94811d11077014d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:48 +0000
Subject: [PATCH 38/49] fix: the upload commands stop when the collection
 refuses the upload or a chunk

---
 cmdline/src/calls/uploads.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmdline/src/calls/uploads.rs b/cmdline/src/calls/uploads.rs
index 9abc29e..322c58d 100644
--- a/cmdline/src/calls/uploads.rs
+++ b/cmdline/src/calls/uploads.rs
@@ -9,11 +9,14 @@ use url::Url;
 
 pub async fn init(agent: &Agent, canister_id: &Principal, args: init_upload::Args) -> Result<()> {
     let bytes = Encode!(&args)?;
-    agent
+    let response = agent
         .update(canister_id, "init_upload")
         .with_arg(bytes)
         .call_and_wait()
         .await?;
+
+    candid::decode_one::<init_upload::Response>(&response)?
+        .map_err(|e| anyhow::anyhow!("Init upload failed: {:?}", e))?;
     Ok(())
 }
 
@@ -23,11 +26,14 @@ pub async fn store(
     args: store_chunk::Args,
 ) -> Result<()> {
     let bytes = Encode!(&args)?;
-    agent
+    let response = agent
         .update(canister_id, "store_chunk")
         .with_arg(bytes)
         .call_and_wait()
         .await?;
+
+    candid::decode_one::<store_chunk::Response>(&response)?
+        .map_err(|e| anyhow::anyhow!("Store chunk failed: {:?}", e))?;
     Ok(())
 }
 
-- 
2.43.0


From 2a600afb5183ac1da05118cf9b451ff849889ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:03 +0000
Subject: [PATCH 39/49] fix: extreme chunk sizes are reported instead of ending
 the upload commands abnormally

---
 cmdline/src/calls/uploads.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmdline/src/calls/uploads.rs b/cmdline/src/calls/uploads.rs
index 322c58d..45117e9 100644
--- a/cmdline/src/calls/uploads.rs
+++ b/cmdline/src/calls/uploads.rs
@@ -1,4 +1,4 @@
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use candid::{Encode, Nat, Principal};
 use core_nft::updates::management::{finalize_upload, init_upload, store_chunk};
 use ic_agent::Agent;
@@ -62,6 +62,10 @@ pub async fn upload_file(
     destination_path: &str,
     chunk_size: u64,
 ) -> Result<Url> {
+    if chunk_size == 0 {
+        return Err(anyhow!("The chunk size must not be zero"));
+    }
+
     let mut file = File::open(file_path)?;
     let metadata = file.metadata()?;
     let file_size = metadata.len();
@@ -85,10 +89,10 @@ pub async fn upload_file(
     )
     .await?;
 
-    let total_chunks = (file_size + chunk_size - 1) / chunk_size;
+    let total_chunks = file_size.div_ceil(chunk_size);
 
     for i in 0..total_chunks {
-        let mut chunk_data = vec![0; chunk_size as usize];
+        let mut chunk_data = vec![0; chunk_size.min(file_size) as usize];
         let bytes_read = file.read(&mut chunk_data)?;
         if bytes_read == 0 {
             break;
-- 
2.43.0


From 31cad798d27367ecbc92fcaa67c1843f49b5b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 40/49] fix: mint keeps values with colons whole and refuses
 entries without one

---
 cmdline/src/commands.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmdline/src/commands.rs b/cmdline/src/commands.rs
index c789f69..1c9be85 100644
--- a/cmdline/src/commands.rs
+++ b/cmdline/src/commands.rs
@@ -184,7 +184,7 @@ pub async fn handle_mint(
         let mut metadata = Vec::new();
         if let Some(entries) = sub_matches.get_many::<String>("metadata") {
             for entry in entries {
-                let parts: Vec<&str> = entry.split(':').collect();
+                let parts: Vec<&str> = entry.splitn(2, ':').collect();
                 if parts.len() >= 2 {
                     let key = parts[0].to_string();
                     let value_str = parts[1];
@@ -202,6 +202,11 @@ pub async fn handle_mint(
                         )
                     };
                     metadata.push((key, value));
+                } else {
+                    return Err(anyhow!(
+                        "Metadata entry '{}' is not of the form key:value",
+                        entry
+                    ));
                 }
             }
         }
-- 
2.43.0


From 2a7388dac80f63e6caf7175c68f86be8e8682a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 41/49] fix: create-metadata drops no part of an attribute and
 writes no null for text that reads as an infinite number

---
 cmdline/src/commands.rs | 15 ++++++++-------
 cmdline/src/metadata.rs | 15 ++++++++++-----
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/cmdline/src/commands.rs b/cmdline/src/commands.rs
index 1c9be85..bec0d22 100644
--- a/cmdline/src/commands.rs
+++ b/cmdline/src/commands.rs
@@ -12,7 +12,7 @@ use crate::calls::{
 };
 use crate::metadata::{
     create_icrc97_metadata, create_icrc97_metadata_from_url, create_metadata_interactive,
-    create_metadata_interactive_hashmap, validate_icrc97_metadata,
+    create_metadata_interactive_hashmap, parse_attribute_value, validate_icrc97_metadata,
 };
 use core_nft::updates::management::Permission;
 
@@ -80,19 +80,20 @@ pub async fn handle_create_metadata(sub_matches: &ArgMatches) -> Result<()> {
         if let Some(attrs) = sub_matches.get_many::<String>("attribute") {
             for attr in attrs {
                 let parts: Vec<&str> = attr.split(':').collect();
-                if parts.len() >= 2 {
+                if parts.len() == 2 || parts.len() == 3 {
                     let trait_type = parts[0].to_string();
-                    let value = if let Ok(num) = parts[1].parse::<f64>() {
-                        serde_json::json!(num)
-                    } else {
-                        serde_json::json!(parts[1])
-                    };
+                    let value = parse_attribute_value(parts[1]);
                     let display_type = if parts.len() > 2 {
                         Some(parts[2].to_string())
                     } else {
                         None
                     };
                     attributes.push((trait_type, value, display_type));
+                } else {
+                    return Err(anyhow!(
+                        "Attribute '{}' is not of the form trait_type:value[:display_type]",
+                        attr
+                    ));
                 }
             }
         }
diff --git a/cmdline/src/metadata.rs b/cmdline/src/metadata.rs
index 2945e23..781c535 100644
--- a/cmdline/src/metadata.rs
+++ b/cmdline/src/metadata.rs
@@ -73,6 +73,14 @@ pub fn validate_icrc97_metadata(metadata: &Value) -> Result<()> {
     Ok(())
 }
 
+/// A number when the text is one that JSON can hold, and the text itself otherwise.
+pub fn parse_attribute_value(text: &str) -> Value {
+    match text.parse::<f64>() {
+        Ok(num) if num.is_finite() => json!(num),
+        _ => json!(text),
+    }
+}
+
 pub fn create_metadata_interactive_hashmap() -> Result<Vec<(String, ICRC3Value)>> {
     println!("=== Interactive Metadata Creation (HashMap Mode) ===");
     let mut metadata = Vec::new();
@@ -181,11 +189,8 @@ pub fn create_metadata_interactive() -> Result<Value> {
             }
 
             let value_str = prompt_input("Value");
-            let (value, is_number) = if let Ok(num) = value_str.parse::<f64>() {
-                (json!(num), true)
-            } else {
-                (json!(value_str), false)
-            };
+            let value = parse_attribute_value(&value_str);
+            let is_number = value.is_number();
 
             let display_type = prompt_display_type(is_number);
 
-- 
2.43.0


From c89c0df1dcccd0b404c827a80cb0d13a62acc13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 42/49] fix: questions end with the input instead of being
 repeated for ever

---
 cmdline/src/prompts.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmdline/src/prompts.rs b/cmdline/src/prompts.rs
index accdeb2..e3d67dc 100644
--- a/cmdline/src/prompts.rs
+++ b/cmdline/src/prompts.rs
@@ -1,4 +1,4 @@
-use std::io::Write;
+use std::io::{BufRead, Write};
 
 pub fn prompt_input(prompt: &str) -> String {
     print!("{}: ", prompt);
@@ -8,6 +8,13 @@ pub fn prompt_input(prompt: &str) -> String {
     input.trim().to_string()
 }
 
+fn input_ended() -> bool {
+    std::io::stdin()
+        .lock()
+        .fill_buf()
+        .map_or(true, |rest| rest.is_empty())
+}
+
 pub fn prompt_optional(prompt: &str) -> Option<String> {
     let input = prompt_input(&format!("{} (optional, press Enter to skip)", prompt));
     if input.is_empty() {
@@ -23,6 +30,7 @@ pub fn prompt_bool(prompt: &str) -> bool {
         match input.to_lowercase().as_str() {
             "y" | "yes" => return true,
             "n" | "no" => return false,
+            _ if input_ended() => return false,
             _ => println!("Please enter 'y' or 'n'"),
         }
     }
-- 
2.43.0


From b653b76e8c5d312a1112637e735b29114d5ea9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:46 +0000
Subject: [PATCH 43/49] fix: files are not accepted at paths that clients
 rewrite before they request them

---
 src/core_nft/src/types/http.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/types/http.rs b/src/core_nft/src/types/http.rs
index 393ba2d..051b707 100644
--- a/src/core_nft/src/types/http.rs
+++ b/src/core_nft/src/types/http.rs
@@ -38,7 +38,14 @@ pub fn request_path(file_path: &str) -> String {
 /// Whether a request for the path of a file can reach its redirection.
 pub fn is_servable(file_path: &str) -> bool {
     let path = request_path(file_path);
-    !matches!(path.as_str(), "/logs" | "/traces" | "/metrics")
+    // clients rewrite these before they send a request
+    let is_rewritten = path.starts_with("//")
+        || path.contains('\\')
+        || path
+            .split('/')
+            .any(|segment| matches!(segment, "." | ".."));
+    !is_rewritten
+        && !matches!(path.as_str(), "/logs" | "/traces" | "/metrics")
         && HttpRequest::get(path.clone())
             .build()
             .get_path()
-- 
2.43.0


From cd73148c3ed06601782fca46d2c3ed319d8d7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:12 +0000
Subject: [PATCH 44/49] fix: keep topping up the storage canisters after an
 upgrade

---
 src/core_nft/src/lifecycle/post_upgrade.rs |  2 ++
 src/core_nft/src/types/sub_canister.rs     | 25 ++++++++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 6427aa5..9f28d68 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -49,6 +49,8 @@ fn post_upgrade(args: Args) {
             // calls that were pending before the upgrade can no longer release their lock
             state.principal_guards.clear();
 
+            state.data.sub_canister_manager.restore_funding_config();
+
             state.env.set_version(upgrade_args.version);
             state.env.set_commit_hash(upgrade_args.commit_hash);
 
diff --git a/src/core_nft/src/types/sub_canister.rs b/src/core_nft/src/types/sub_canister.rs
index 1de966b..b22d53d 100644
--- a/src/core_nft/src/types/sub_canister.rs
+++ b/src/core_nft/src/types/sub_canister.rs
@@ -21,6 +21,16 @@ pub const RESERVED_CYCLES_BALANCE: u128 = 2_000_000_000_000; // 2T cycles
 
 pub use bity_ic_storage_canister_api::lifecycle::Args as ArgsStorage;
 
+pub fn funding_config() -> FundManagerOptions {
+    FundManagerOptions::new()
+        .with_interval_secs(60)
+        .with_strategy(FundStrategy::BelowThreshold(
+            CyclesThreshold::new()
+                .with_min_cycles(1_000_000_000_000)
+                .with_fund_cycles(2_000_000_000_000),
+        ))
+}
+
 #[derive(Serialize, Deserialize, Clone)]
 pub struct StorageSubCanisterManager {
     sub_canister_manager: bity_ic_subcanister_manager::SubCanisterManager<StorageCanister>,
@@ -42,14 +52,6 @@ impl StorageSubCanisterManager {
         commit_hash: String,
         wasm: Vec<u8>,
     ) -> Self {
-        let funding_config = FundManagerOptions::new()
-            .with_interval_secs(60)
-            .with_strategy(FundStrategy::BelowThreshold(
-                CyclesThreshold::new()
-                    .with_min_cycles(1_000_000_000_000)
-                    .with_fund_cycles(2_000_000_000_000),
-            ));
-
         Self {
             sub_canister_manager: bity_ic_subcanister_manager::SubCanisterManager::new(
                 master_canister_id,
@@ -61,13 +63,18 @@ impl StorageSubCanisterManager {
                 test_mode,
                 commit_hash,
                 wasm,
-                funding_config,
+                funding_config(),
             ),
             init_args,
             upgrade_args,
         }
     }
 
+    // the funding configuration is not serialized: it has to be set again after an upgrade
+    pub fn restore_funding_config(&mut self) {
+        self.sub_canister_manager.funding_config = funding_config();
+    }
+
     pub async fn init_upload(
         &mut self,
         data: init_upload::Args,
-- 
2.43.0


From 382fbf2346e44705f357a4eb63eff2fc40c0b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:12 +0000
Subject: [PATCH 45/49] fix: remember a storage canister created by a failed
 init_upload

---
 src/core_nft/src/updates/management.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 342b529..205c8ff 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -410,7 +410,12 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
 
     let mut sub_canister_manager = read_state(|state| state.data.sub_canister_manager.clone());
 
-    let canister = match sub_canister_manager.init_upload(data.clone()).await {
+    let result = sub_canister_manager.init_upload(data.clone()).await;
+
+    // a storage canister may have been created even if the upload failed
+    mutate_state(|state| state.data.sub_canister_manager = sub_canister_manager);
+
+    let canister = match result {
         Ok((_, canister)) => canister,
         Err(e) => {
             trace(&format!("Error inserting data: {:?}", e));
@@ -419,7 +424,6 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
     };
 
     mutate_state(|state| {
-        state.data.sub_canister_manager = sub_canister_manager;
         state.internal_filestorage.insert(
             data.file_path.clone(),
             InternalFilestorageData {
-- 
2.43.0


From 74ff44fd542794e17a006ccfdb5890b00015b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:12 +0000
Subject: [PATCH 46/49] fix: do not create another storage canister for an
 invalid chunk size

---
 src/core_nft/src/types/management.rs   | 12 ++++++++++++
 src/core_nft/src/types/sub_canister.rs |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/src/core_nft/src/types/management.rs b/src/core_nft/src/types/management.rs
index 1c59853..6b3f7bc 100644
--- a/src/core_nft/src/types/management.rs
+++ b/src/core_nft/src/types/management.rs
@@ -129,6 +129,18 @@ pub mod init_upload {
         StorageCanisterError(String),
     }
 
+    impl InitUploadError {
+        // every storage canister refuses such an upload, including a new one
+        pub fn is_invalid_request(&self) -> bool {
+            match self {
+                Self::StorageCanisterError(e) => {
+                    *e == format!("{:?}", init_upload::InitUploadError::InvalidChunkSize)
+                }
+                _ => false,
+            }
+        }
+    }
+
     pub type Args = init_upload::Args;
     pub type Response = Result<init_upload::InitUploadResp, InitUploadError>;
 
diff --git a/src/core_nft/src/types/sub_canister.rs b/src/core_nft/src/types/sub_canister.rs
index b22d53d..f69fb76 100644
--- a/src/core_nft/src/types/sub_canister.rs
+++ b/src/core_nft/src/types/sub_canister.rs
@@ -92,6 +92,9 @@ impl StorageSubCanisterManager {
                             trace(&format!("Initialized upload"));
                             return Ok((init_upload::InitUploadResp {}, canister.canister_id()));
                         }
+                        Err(e) if e.is_invalid_request() => {
+                            return Err(format!("{e:?}"));
+                        }
                         Err(_) => {
                             continue;
                         }
-- 
2.43.0


From ba5eeb8bb81eb1c56417131e9de4245548a81b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:39 +0000
Subject: [PATCH 47/49] fix: keep topping up the archives after an upgrade

---
 src/core_nft/src/lifecycle/post_upgrade.rs |  6 ++++--
 src/core_nft/src/types/stored_icrc3.rs     | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 9f28d68..3f8b3d1 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -2,7 +2,7 @@ use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
 use crate::state::{read_state, replace_icrc3, start_default_archive_job, RuntimeState};
 use crate::types::http::{add_redirection, certify_all_assets};
-use crate::types::stored_icrc3::StoredIcrc3;
+use crate::types::stored_icrc3::{restore_archive_funding, StoredIcrc3};
 use crate::Args;
 
 use bity_ic_canister_logger::LogEntry;
@@ -56,7 +56,9 @@ fn post_upgrade(args: Args) {
 
             bity_ic_canister_logger::init_with_logs(state.env.is_test_mode(), logs, traces);
             init_canister(state.clone());
-            replace_icrc3(icrc3.into());
+            let icrc3 = icrc3.into();
+            restore_archive_funding(&icrc3);
+            replace_icrc3(icrc3);
             start_default_archive_job();
 
             certify_all_assets();
diff --git a/src/core_nft/src/types/stored_icrc3.rs b/src/core_nft/src/types/stored_icrc3.rs
index 6896db9..922c702 100644
--- a/src/core_nft/src/types/stored_icrc3.rs
+++ b/src/core_nft/src/types/stored_icrc3.rs
@@ -1,4 +1,6 @@
+use crate::types::sub_canister::funding_config;
 use bity_ic_icrc3::{blockchain::blockchain::Blockchain, config::ICRC3Config, icrc3::ICRC3};
+use bity_ic_subcanister_manager::add_canisters_to_fund_manager;
 use bity_ic_types::TimestampNanos;
 use candid::{Int, Nat};
 use icrc_ledger_types::icrc::generic_value::ICRC3Value;
@@ -28,6 +30,20 @@ enum StoredValue {
     Map(BTreeMap<String, StoredValue>),
 }
 
+/// The funding of the archives is not serialized: it has to be started again after an upgrade.
+pub fn restore_archive_funding(icrc3: &ICRC3) {
+    let mut archives = icrc3
+        .blockchain
+        .archive_canister_manager
+        .write()
+        .expect("no other code is running");
+    let manager = &mut archives.sub_canister_manager;
+    let canister_ids = manager.list_canisters_ids();
+
+    manager.funding_config = funding_config();
+    add_canisters_to_fund_manager(&mut manager.fund_manager, funding_config(), canister_ids);
+}
+
 impl From<StoredIcrc3> for ICRC3 {
     fn from(stored: StoredIcrc3) -> Self {
         ICRC3 {
-- 
2.43.0


From 2638168c2425e00b3784e1d0c68ecb98427df9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:36 +0000
Subject: [PATCH 48/49] fix: record log messages from the installation on, not
 from the first upgrade

---
 src/core_nft/src/lifecycle/init.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index 40dd8d5..15a865f 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -49,6 +49,8 @@ pub struct InitArgs {
 fn init(args: Args) {
     match args {
         Args::Init(init_args) => {
+            bity_ic_canister_logger::init(init_args.test_mode);
+
             info!("Init start.");
             let env = CanisterEnv::new(
                 init_args.test_mode,
-- 
2.43.0


From 9e8cb6419f5352327e4c55ccc179a6a210d48a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:16 +0000
Subject: [PATCH 49/49] fix: list approvals given at the same time in a fixed
 order

---
 src/core_nft/src/queries/icrc37.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 435585a..4663fe5 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -52,6 +52,7 @@ fn icrc37_get_token_approvals(
             b.approval_info
                 .created_at_time
                 .cmp(&a.approval_info.created_at_time)
+                .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
         });
 
         let start_index = if let Some(prev_approval) = prev {
@@ -115,6 +116,7 @@ fn icrc37_get_collection_approvals(
         b.approval_info
             .created_at_time
             .cmp(&a.approval_info.created_at_time)
+            .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
     });
 
     let start_index = if let Some(prev_approval) = prev {
-- 
2.43.0

