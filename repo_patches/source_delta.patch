From 2dbc2060c37f4934b2ce896ea4471d39f612b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:13 +0000
Subject: [PATCH 1/4] fix: council members of a new DAO are not entered as
 members in the funds distributor

---
 .../src/multisig_membership.rs                  | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/contracts/enterprise-factory/src/multisig_membership.rs b/contracts/enterprise-factory/src/multisig_membership.rs
index 36a5f0b..a86ea67 100644
--- a/contracts/enterprise-factory/src/multisig_membership.rs
+++ b/contracts/enterprise-factory/src/multisig_membership.rs
@@ -94,13 +94,16 @@ pub fn instantiate_multisig_membership_contract(
     let enterprise_contract = dao_being_created.require_enterprise_address()?;
     let version_info = dao_being_created.require_version_info()?;
 
-    DAO_BEING_CREATED.save(
-        deps.storage,
-        &DaoBeingCreated {
-            initial_weights: Some(initial_weights.clone()),
-            ..dao_being_created
-        },
-    )?;
+    // only the DAO's own members are eligible for rewards, council members are not
+    if reply_id == MEMBERSHIP_CONTRACT_INSTANTIATE_REPLY_ID {
+        DAO_BEING_CREATED.save(
+            deps.storage,
+            &DaoBeingCreated {
+                initial_weights: Some(initial_weights.clone()),
+                ..dao_being_created
+            },
+        )?;
+    }
 
     let submsg = SubMsg::reply_on_success(
         Wasm(Instantiate {
-- 
2.43.0


From ec650bd72f04fc621fc444a05d184ad4e56bf547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:31 +0000
Subject: [PATCH 2/4] fix: replacing the members of a multisig reports the
 weight that removed members lost

---
 .../multisig-membership-impl/src/execute.rs     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/packages/multisig-membership-impl/src/execute.rs b/packages/multisig-membership-impl/src/execute.rs
index 96d5345..d7e082f 100644
--- a/packages/multisig-membership-impl/src/execute.rs
+++ b/packages/multisig-membership-impl/src/execute.rs
@@ -8,7 +8,7 @@ use membership_common::weight_change_hooks::report_weight_change_submsgs;
 use membership_common_api::api::UserWeightChange;
 use multisig_membership_api::api::{SetMembersMsg, UpdateMembersMsg};
 use multisig_membership_api::error::MultisigMembershipResult;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// Update members' weights. Only the current admin can execute this.
 pub fn update_members(
@@ -52,9 +52,9 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
     // only governance controller can execute this
     enterprise_governance_controller_only(ctx, None)?;
 
-    let old_member_weights = MEMBER_WEIGHTS
+    let mut old_member_weights = MEMBER_WEIGHTS
         .range(ctx.deps.storage, None, None, Order::Ascending)
-        .collect::<StdResult<HashMap<Addr, Uint128>>>()?;
+        .collect::<StdResult<BTreeMap<Addr, Uint128>>>()?;
 
     MEMBER_WEIGHTS.clear(ctx.deps.storage);
 
@@ -67,7 +67,7 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
     for (member, weight) in deduped_edit_members {
         total_weight += weight;
 
-        let old_weight = old_member_weights.get(&member).cloned().unwrap_or_default();
+        let old_weight = old_member_weights.remove(&member).unwrap_or_default();
         weight_changes.push(UserWeightChange {
             user: member.to_string(),
             old_weight,
@@ -77,6 +77,15 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
         set_member_weight(ctx.deps.storage, member, weight)?;
     }
 
+    // members that are not in the new set have lost their weight, and that has to be reported too
+    for (removed_member, old_weight) in old_member_weights {
+        weight_changes.push(UserWeightChange {
+            user: removed_member.to_string(),
+            old_weight,
+            new_weight: Uint128::zero(),
+        });
+    }
+
     save_total_weight(ctx.deps.storage, &total_weight, &ctx.env.block)?;
 
     let report_weight_change_submsgs = report_weight_change_submsgs(ctx, weight_changes)?;
-- 
2.43.0


From 783941dccd4ec310891140cde50d7e2604e2357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:02 +0000
Subject: [PATCH 3/4] fix: proposals can edit the NFT whitelist of a remote
 treasury

---
 .../src/validate.rs                                 | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/contracts/enterprise-governance-controller/src/validate.rs b/contracts/enterprise-governance-controller/src/validate.rs
index 83a32b1..99468df 100644
--- a/contracts/enterprise-governance-controller/src/validate.rs
+++ b/contracts/enterprise-governance-controller/src/validate.rs
@@ -112,7 +112,12 @@ pub fn validate_proposal_actions(
                 &msg.add,
                 &msg.remove,
             )?,
-            UpdateNftWhitelist(msg) => validate_nft_whitelist_changes(deps, &msg.add, &msg.remove)?,
+            UpdateNftWhitelist(msg) => validate_nft_whitelist_changes(
+                deps,
+                &msg.remote_treasury_target,
+                &msg.add,
+                &msg.remove,
+            )?,
             UpgradeDao(msg) => validate_upgrade_dao(deps, msg)?,
             ExecuteMsgs(msg) => validate_execute_msgs(msg)?,
             ExecuteTreasuryMsgs(msg) => validate_execute_treasury_msgs(msg)?,
@@ -295,9 +300,15 @@ struct AssetInfoHashSets {
 
 fn validate_nft_whitelist_changes(
     deps: Deps,
+    remote_treasury_target: &Option<RemoteTreasuryTarget>,
     add: &Vec<String>,
     remove: &Vec<String>,
 ) -> GovernanceControllerResult<()> {
+    if remote_treasury_target.is_some() {
+        // we can't do any validation, the NFTs are from a different chain
+        return Ok(());
+    }
+
     let mut add_nfts: HashSet<Addr> = HashSet::new();
     for nft in add {
         let nft = deps.api.addr_validate(nft)?;
-- 
2.43.0


From 743c15bb3c9231b8c4530486d0774b32e2725d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:57 +0000
Subject: [PATCH 4/4] fix: refuse remote treasury targets in proposals drafted
 for pre-rewrite DAOs

The v1 facade dropped remote_treasury_target of whitelist updates and funding requests, so the drafted proposal acted on the local treasury.
---
 .../enterprise-facade-v1/src/facade_v1.rs     | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/contracts/enterprise-facade-v1/src/facade_v1.rs b/contracts/enterprise-facade-v1/src/facade_v1.rs
index 802b617..e12e351 100644
--- a/contracts/enterprise-facade-v1/src/facade_v1.rs
+++ b/contracts/enterprise-facade-v1/src/facade_v1.rs
@@ -551,9 +551,27 @@ impl EnterpriseFacadeV1 {
             ProposalAction::UpdateMetadata(msg) => Ok(UpdateMetadata(msg.into())),
             ProposalAction::UpdateGovConfig(msg) => Ok(UpdateGovConfig(msg.into())),
             ProposalAction::UpdateCouncil(msg) => Ok(UpdateCouncil(msg.into())),
-            ProposalAction::UpdateAssetWhitelist(msg) => Ok(UpdateAssetWhitelist(msg.into())),
-            ProposalAction::UpdateNftWhitelist(msg) => Ok(UpdateNftWhitelist(msg.into())),
-            ProposalAction::RequestFundingFromDao(msg) => Ok(RequestFundingFromDao(msg.into())),
+            ProposalAction::UpdateAssetWhitelist(msg) => {
+                if msg.remote_treasury_target.is_some() {
+                    Err(StdError::generic_err("remote treasuries not supported"))
+                } else {
+                    Ok(UpdateAssetWhitelist(msg.into()))
+                }
+            }
+            ProposalAction::UpdateNftWhitelist(msg) => {
+                if msg.remote_treasury_target.is_some() {
+                    Err(StdError::generic_err("remote treasuries not supported"))
+                } else {
+                    Ok(UpdateNftWhitelist(msg.into()))
+                }
+            }
+            ProposalAction::RequestFundingFromDao(msg) => {
+                if msg.remote_treasury_target.is_some() {
+                    Err(StdError::generic_err("remote treasuries not supported"))
+                } else {
+                    Ok(RequestFundingFromDao(msg.into()))
+                }
+            }
             ProposalAction::UpgradeDao(msg) => {
                 let version_1_0_0 = Version {
                     major: 1,
-- 
2.43.0

