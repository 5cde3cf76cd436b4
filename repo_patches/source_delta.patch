From 5fe7f6df72503b2a7fdc34b1b09e4aa6797b4614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 01/26] fix: reject SLIP32 keys whose private key prefix is not
 zero

from_slip32 only had a debug_assert for the 0x00 byte that precedes the
private key: malformed input aborted debug builds and was accepted in release.
---
 crypto/src/key.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index 9ee256b..10fd879 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -193,7 +193,11 @@ impl ExtendedSK {
         cursor.read_exact(chain_code.as_mut())?;
 
         let secret_prefix = cursor.read_u8()?;
-        debug_assert!(secret_prefix == 0);
+        if secret_prefix != 0 {
+            return Err(KeyError::Deserialization(format!(
+                "invalid private key prefix, expected: 0, got: {secret_prefix}",
+            )));
+        }
 
         let mut secret = Protected::new(vec![0; 32]);
         cursor.read_exact(secret.as_mut())?;
-- 
2.43.0


From 57569a49519dee164385abdcd4005aafba4b9eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 02/26] fix: SLIP32 serialization of paths deeper than 39
 levels

The buffer size was computed in u8 and overflowed for depths of 40 and more,
although depths up to 255 are representable.
---
 crypto/src/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index 10fd879..5de3ba5 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -218,11 +218,11 @@ impl ExtendedSK {
         })?;
 
         let capacity = 1     // 1 byte for depth
-            + 4 * depth      // 4 * depth bytes for path
+            + 4 * usize::from(depth) // 4 * depth bytes for path
             + 32             // 32 bytes for chain code
             + 33             // 33 bytes for 0x00 || private key
             ;
-        let mut bytes = Protected::new(vec![0; usize::from(capacity)]);
+        let mut bytes = Protected::new(vec![0; capacity]);
         let mut slice = bytes.as_mut();
 
         slice.write_all(&[depth])?;
-- 
2.43.0


From cfc9b825b75380770c6c12e1fab63f3ae21c8b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 03/26] fix: penalize_many left the identity cache and the
 packet queue inconsistent

The cache was decremented while the penalizations were still being evaluated:
an error for a later identity returned with earlier ones already subtracted
from the cache but not from the queue, and an identity listed twice lost one
of its two subtractions.
---
 reputation/src/trs.rs | 59 +++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/reputation/src/trs.rs b/reputation/src/trs.rs
index 81ec8d5..6d3082e 100644
--- a/reputation/src/trs.rs
+++ b/reputation/src/trs.rs
@@ -205,35 +205,38 @@ where
         K: 'a,
     {
         let mut total_subtracted = V::default();
-        let mut to_subtract = ids_fs
-            .into_iter()
-            .filter_map(|(id, mut next_v)| {
-                let mut old_v = self.get(id);
-                // next_v returns the new value of v
-                let new_v = next_v(self.get(id));
-                match new_v.cmp(&old_v) {
-                    Ordering::Greater => {
-                        // Overflow: return error
-                        Some(Err(RepError {
-                            old_rep: old_v,
-                            new_rep: new_v,
-                        }))
-                    }
-                    Ordering::Equal => {
-                        // When there is no reputation to subtract, we can skip this identity
-                        None
-                    }
-                    Ordering::Less => {
-                        old_v -= new_v;
-                        let ts = old_v;
-                        total_subtracted += ts.clone();
-                        // Update cache. Cannot fail because we just checked for overflow
-                        decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
-                        Some(Ok((id.clone(), ts)))
-                    }
+        let mut to_subtract: HashMap<K, V, S> = HashMap::default();
+        for (id, mut next_v) in ids_fs {
+            let mut old_v = self.get(id);
+            if let Some(ts) = to_subtract.get(id) {
+                // This identity has already been penalized in this call
+                old_v -= ts.clone();
+            }
+            // next_v returns the new value of v
+            let new_v = next_v(old_v.clone());
+            match new_v.cmp(&old_v) {
+                Ordering::Greater => {
+                    // Overflow: return error. Nothing has been modified yet
+                    return Err(RepError {
+                        old_rep: old_v,
+                        new_rep: new_v,
+                    });
                 }
-            })
-            .collect::<Result<HashMap<K, V, S>, _>>()?;
+                Ordering::Equal => {
+                    // When there is no reputation to subtract, we can skip this identity
+                }
+                Ordering::Less => {
+                    old_v -= new_v;
+                    total_subtracted += old_v.clone();
+                    *to_subtract.entry(id.clone()).or_default() += old_v;
+                }
+            }
+        }
+
+        // Update cache. Cannot fail because we just checked for overflow
+        for (id, ts) in &to_subtract {
+            decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
+        }
 
         // Iterate back to front
         for (_, rep_diff) in self.queue.iter_mut().rev() {
-- 
2.43.0


From fd01bf49c4d279512ceb076b2556df847634767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 04/26] fix: Merkle inclusion proofs longer than the index
 width

---
 crypto/src/merkle.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypto/src/merkle.rs b/crypto/src/merkle.rs
index 4c51de6..40ba173 100644
--- a/crypto/src/merkle.rs
+++ b/crypto/src/merkle.rs
@@ -309,7 +309,11 @@ impl<T: Copy + PartialEq> InclusionProof<T> {
         let mut elem = element;
         let hash_concat = self.hash_concat;
         for (level, h) in self.lemma.iter().enumerate() {
-            let h_on_the_left = ((self.index >> level) & 1) == 1;
+            // The index has no bit for the levels beyond its width
+            let h_on_the_left = u32::try_from(level)
+                .ok()
+                .and_then(|level| self.index.checked_shr(level))
+                .is_some_and(|bits| (bits & 1) == 1);
             elem = if h_on_the_left {
                 hash_concat(*h, elem)
             } else {
-- 
2.43.0


From 78e1179ffba76c363c2e7e616a2179f788f0db93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 05/26] fix: protected values could not be read back from the
 formats they were written to

---
 protected/src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protected/src/serde.rs b/protected/src/serde.rs
index 358b7ef..6eac5a0 100644
--- a/protected/src/serde.rs
+++ b/protected/src/serde.rs
@@ -16,7 +16,7 @@ impl Serialize for Protected {
     where
         S: Serializer,
     {
-        serializer.serialize_bytes(self.as_ref())
+        <[u8]>::serialize(self.as_ref(), serializer)
     }
 }
 
@@ -34,6 +34,6 @@ impl Serialize for ProtectedString {
     where
         S: Serializer,
     {
-        serializer.serialize_bytes(self.as_ref())
+        serializer.serialize_str(self.as_ref())
     }
 }
-- 
2.43.0


From e867d5b61a2180ef5b561d541136a41e7cc4b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 06/26] fix: overflow in the sum of stake and change values of
 a stake transaction

The stake fee added the stake and the change without checking for overflow.
In release builds, where overflow checks are off, a change of 2^64 - stake + n
made the sum wrap to n and let the transaction create value.
---
 validations/src/validations.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index d52a01a..035d207 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -121,11 +121,14 @@ pub fn st_transaction_fee(
         Some(change) => change.value,
         None => 0,
     };
+    let out_value = out_value
+        .checked_add(change_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
 
-    if out_value + change_value > in_value {
+    if out_value > in_value {
         Err(TransactionError::NegativeFee.into())
     } else {
-        Ok(in_value - out_value - change_value)
+        Ok(in_value - out_value)
     }
 }
 
-- 
2.43.0


From 7dd2a4744153fe0973281f41588119e0a4a0f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 07/26] fix: overflow in the sum of withdrawal and fee of an
 unstake transaction

The withdrawn value and the fee were added without checking for overflow, so in
release builds a withdrawal of 2^64 - fee looked like unstaking nothing.
---
 validations/src/validations.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 035d207..648f53a 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -144,7 +144,11 @@ pub fn ut_transaction_fee(
     let out_value = ut_tx.body.value();
     let fee_value = ut_tx.body.fee;
 
-    if out_value + fee_value > staked_amount {
+    let total_value = out_value
+        .checked_add(fee_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
+
+    if total_value > staked_amount {
         Err(TransactionError::NegativeFee.into())
     } else {
         Ok(fee_value)
@@ -1475,7 +1479,11 @@ pub fn validate_unstake_transaction<'a>(
     }
 
     // Check if is unstaking more than the total stake
-    let mut amount_to_unstake = ut_tx.body.value() + ut_tx.body.fee;
+    let mut amount_to_unstake = ut_tx
+        .body
+        .value()
+        .checked_add(ut_tx.body.fee)
+        .ok_or(TransactionError::OutputValueOverflow)?;
 
     let validator = ut_tx.body.operator;
     let withdrawer = ut_tx.signature.public_key.pkh();
-- 
2.43.0


From a3f70f14b15d2464494c1ce096027d188ea59a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 08/26] fix: overflow in the maximum stake check

The current and the added stake were summed without checking for overflow.
---
 validations/src/validations.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 648f53a..8e2c61a 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -1420,10 +1420,11 @@ pub fn validate_stake_transaction<'a>(
                 .map(|stake| stake.value.coins)
                 .unwrap()
                 .into();
-            if staked_amount + st_tx.body.output.value > max_stake_nanowits {
+            let total_stake = staked_amount.saturating_add(st_tx.body.output.value);
+            if total_stake > max_stake_nanowits {
                 Err(TransactionError::StakeAboveMaximum {
                     max_stake: max_stake_nanowits,
-                    stake: staked_amount + st_tx.body.output.value,
+                    stake: total_stake,
                 })?;
             }
         }
-- 
2.43.0


From 6bbfc14acd4dc03adda019855a9b9b0428ac42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 09/26] fix: overflow in the minimum stake plus collateral
 check

The collateral is chosen by the data request: close to 2^64 the sum wrapped and
the check passed.
---
 validations/src/validations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 8e2c61a..2a57708 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -191,7 +191,7 @@ pub fn validate_commit_collateral(
             .map(|stake| stake.value.coins)
             .unwrap()
             .into();
-        if validator_balance < min_stake + required_collateral {
+        if validator_balance < min_stake.saturating_add(required_collateral) {
             return Err(TransactionError::CollateralBelowMinimumStake {
                 collateral: required_collateral,
                 validator: commit_pkh,
-- 
2.43.0


From b29b93a3d47e52828c60e59d025d152c3f7afb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:59 +0000
Subject: [PATCH 10/26] fix: removing more coins than staked wrapped the stake
 around

A validator can be charged a collateral and unstake its full (pre-block) balance
in the same block; the second removal then exceeds what is left, and without
overflow checks the stake became close to 2^64.
---
 data_structures/src/staking/stake.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/data_structures/src/staking/stake.rs b/data_structures/src/staking/stake.rs
index ab5b96a..c2b9495 100644
--- a/data_structures/src/staking/stake.rs
+++ b/data_structures/src/staking/stake.rs
@@ -155,6 +155,14 @@ where
         nonce_policy: NoncePolicy<Epoch>,
         minimum_stakeable: Coins,
     ) -> StakesResult<Coins, Address, Coins, Epoch> {
+        // Make sure that no more coins are removed than those that are staked
+        if coins > self.coins {
+            Err(StakesError::AmountIsBelowMinimum {
+                amount: self.coins,
+                minimum: coins,
+            })?;
+        }
+
         let coins_after = self.coins.sub(coins);
 
         if coins_after > Coins::zero() && coins_after < minimum_stakeable {
-- 
2.43.0


From 82294d07711a1e51b646abb2aaff5d011f5bb654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:55 +0000
Subject: [PATCH 11/26] fix: a rejected first stake left an unindexed entry
 behind

add_stake created the entry before checking the amount. After an amount below
the minimum, the empty entry stayed in the index by key only, and later stakes
for the same key were never indexed by validator or withdrawer.
---
 data_structures/src/staking/stakes.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index cf7a301..ce45d7a 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -249,10 +249,17 @@ where
         };
 
         // Actually increase the number of coins
-        stake
+        let added = stake
             .value
             .write()?
-            .add_stake(coins, epoch, nonce_policy, minimum_stakeable)?;
+            .add_stake(coins, epoch, nonce_policy, minimum_stakeable);
+        if let Err(e) = added {
+            // Do not leave behind an empty entry that is missing from the other indexes
+            if !stake_found {
+                self.by_key.remove(&key);
+            }
+            return Err(e);
+        }
 
         // Update all indexes if needed (only when the stake entry didn't exist before)
         if !stake_found {
-- 
2.43.0


From 1fce6d513768f3de9ac1b42485897e70b9585268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 12/26] fix: a vote with a malformed key or signature aborted
 signature verification

---
 validations/src/validations.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 2a57708..3a9d056 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -2964,17 +2964,9 @@ pub fn verify_signatures(
                 let secp_message = superblock_vote.secp256k1_signature_message();
                 let secp_message_hash = calculate_sha256(&secp_message);
                 verify(
-                    &superblock_vote
-                        .secp256k1_signature
-                        .public_key
-                        .try_into()
-                        .unwrap(),
+                    &superblock_vote.secp256k1_signature.public_key.try_into()?,
                     &secp_message_hash.0,
-                    &superblock_vote
-                        .secp256k1_signature
-                        .signature
-                        .try_into()
-                        .unwrap(),
+                    &superblock_vote.secp256k1_signature.signature.try_into()?,
                 )?;
             }
         }
-- 
2.43.0


From 4308c53dd600630e4795d3233a5f515daed8abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:35 +0000
Subject: [PATCH 13/26] fix: a genesis value transfer with more than 255
 signatures aborted the node

---
 validations/src/validations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 3a9d056..4a66405 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -495,7 +495,7 @@ pub fn validate_genesis_vt_transaction(
     // Genesis VTTs should have 0 signatures
     if !vt_tx.signatures.is_empty() {
         return Err(TransactionError::MismatchingSignaturesNumber {
-            signatures_n: u8::try_from(vt_tx.signatures.len()).unwrap(),
+            signatures_n: u8::try_from(vt_tx.signatures.len()).unwrap_or(u8::MAX),
             inputs_n: 0,
         });
     }
-- 
2.43.0


From 1038ef06af0eaec37600434e3da09df689228248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:45 +0000
Subject: [PATCH 14/26] fix: an emptied stake could drop another entry from the
 indexes

---
 data_structures/src/staking/stakes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index ce45d7a..44f58ec 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -416,7 +416,7 @@ where
                     stakes.remove(
                         stakes
                             .iter()
-                            .position(|stake| stake.read_value().coins == 0.into())
+                            .position(|stake| stake.read_key() == key)
                             .unwrap(),
                     );
                     if stakes.is_empty() {
@@ -427,7 +427,7 @@ where
                     stakes.remove(
                         stakes
                             .iter()
-                            .position(|stake| stake.read_value().coins == 0.into())
+                            .position(|stake| stake.read_key() == key)
                             .unwrap(),
                     );
                     if stakes.is_empty() {
-- 
2.43.0


From 09c216756aca282397ac01deaaecea20f201ccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:02 +0000
Subject: [PATCH 15/26] fix: an evenly distributed census of few stakers
 aborted

---
 data_structures/src/staking/stakes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index 44f58ec..f39fe4c 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -302,7 +302,8 @@ where
             CensusStrategy::Take(head) => Box::new(iterator.take(head)),
             CensusStrategy::Evenly(count) => {
                 let collected = iterator.collect::<Vec<_>>();
-                let step = collected.len() / count;
+                // Both the count and the step must be positive, even if there are fewer entries than requested
+                let step = (collected.len() / count.max(1)).max(1);
 
                 Box::new(collected.into_iter().step_by(step).take(count))
             }
-- 
2.43.0


From 8e3ab614591a7aacc4c08081987905e47578e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 16/26] fix: collateral created in the same block aborted the
 node

---
 validations/src/validations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 4a66405..830488c 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -263,9 +263,10 @@ pub fn validate_commit_collateral(
         // Outputs to be spent in commitment inputs need to be older than `block_number_limit`.
         // All outputs from the genesis block are fulfill this requirement because
         // `block_number_limit` can't go lower than `0`.
+        // Outputs created by this same block have no block number yet: they are as recent as it.
         let included_in_block_number = utxo_diff
             .included_in_block_number(input.output_pointer())
-            .unwrap();
+            .unwrap_or(block_number);
         if included_in_block_number > block_number_limit {
             return Err(TransactionError::CollateralNotMature {
                 output: *input.output_pointer(),
-- 
2.43.0


From 3af10bf105490f09bf0d0c4f1092709ce81ab42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 17/26] fix: a second signature on the same superblock vote
 aborted the node

---
 data_structures/src/superblock.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/superblock.rs b/data_structures/src/superblock.rs
index 59cb0bf..fa8f1b4 100644
--- a/data_structures/src/superblock.rs
+++ b/data_structures/src/superblock.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{HashMap, HashSet, hash_map::Entry},
     convert::{TryFrom, TryInto},
 };
 
@@ -168,12 +168,9 @@ impl SuperBlockVotesMempool {
 
     fn insert_vote(&mut self, sbv: SuperBlockVote) {
         let pkh = sbv.secp256k1_signature.public_key.pkh();
-        if self
-            .votes_of_each_identity
-            .insert(pkh, sbv.clone())
-            .is_none()
-        {
-            // Only insert votes from a PublicKeyHash the first time
+        // Only insert votes from a PublicKeyHash the first time
+        if let Entry::Vacant(first_vote) = self.votes_of_each_identity.entry(pkh) {
+            first_vote.insert(sbv.clone());
             self.votes_on_each_superblock
                 .entry(sbv.superblock_hash)
                 .or_default()
-- 
2.43.0


From 9920a818181594dd72bd94fdd7bb0115622522cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 18/26] fix: an empty superblock committee aborted the node

---
 data_structures/src/superblock.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/data_structures/src/superblock.rs b/data_structures/src/superblock.rs
index fa8f1b4..ff10a3d 100644
--- a/data_structures/src/superblock.rs
+++ b/data_structures/src/superblock.rs
@@ -631,6 +631,11 @@ pub fn calculate_superblock_signing_committee(
     superblock_hash: Hash,
     block_epoch: Epoch,
 ) -> HashSet<PublicKeyHash> {
+    // A committee of size zero has no members, not even if there are identities to choose from
+    if signing_committee_size == 0 {
+        return HashSet::new();
+    }
+
     // If the number of identities is lower than committee_size all the members of the ARS sign the superblock
     if ars_identities.len() < usize::try_from(signing_committee_size).unwrap() {
         ars_identities.identities
-- 
2.43.0


From 366f473afb8665e87199534c1d7edfd6c9cfe9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:08 +0000
Subject: [PATCH 19/26] fix: a malformed message from a peer aborted the node

from_versioned_pb_bytes converted what parsed as a legacy message with an unwrap, so any bytes that are valid protobuf but not a valid message (an empty one suffices) panicked in the session of the node.
---
 data_structures/src/proto/versioning.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/proto/versioning.rs b/data_structures/src/proto/versioning.rs
index 62c9462..4552018 100644
--- a/data_structures/src/proto/versioning.rs
+++ b/data_structures/src/proto/versioning.rs
@@ -307,7 +307,7 @@ pub trait Versioned: ProtobufConvert {
             let mut legacy = Self::LegacyType::new();
             legacy.merge_from_bytes(bytes)?;
 
-            Ok(Self::from(legacy))
+            Self::from_versioned_pb(legacy)
         }
     }
 }
@@ -392,6 +392,11 @@ impl Versioned for Message {
 
         Ok(versioned)
     }
+
+    /// A peer can send bytes that are valid protobuf but no valid message, so this must not panic.
+    fn from_versioned_pb(legacy: Self::LegacyType) -> Result<Self, Error> {
+        Self::from_pb(crate::proto::schema::witnet::Message::from(legacy))
+    }
 }
 
 impl Versioned for crate::transaction::Transaction {
-- 
2.43.0


From 7a71af4260bff6b08481211520a1820065c1cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:34 +0000
Subject: [PATCH 20/26] fix: more than 127 equal items overflowed the count of
 the mode reducer

The counter was an i8: with 128 equal items or more it overflowed, which aborted the script or, where overflows wrap, made a less frequent item the mode (or aborted when turning a negative count into u16).
---
 rad/src/reducers/mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad/src/reducers/mode.rs b/rad/src/reducers/mode.rs
index 483b690..9d02923 100644
--- a/rad/src/reducers/mode.rs
+++ b/rad/src/reducers/mode.rs
@@ -7,7 +7,7 @@ use std::{collections::HashMap, convert::TryFrom};
 pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     let value = input.value();
 
-    let mut counter: HashMap<RadonTypes, i8> = HashMap::new();
+    let mut counter: HashMap<RadonTypes, usize> = HashMap::new();
 
     // Count how many times does each different item appear in the input array
     for item in value {
@@ -30,7 +30,7 @@ pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     if mode_vector.len() > 1 {
         Err(RadError::ModeTie {
             values: input.clone(),
-            max_count: u16::try_from(*max_count).unwrap(),
+            max_count: u16::try_from(*max_count).unwrap_or(u16::MAX),
         })
     } else {
         Ok(mode_vector.into_iter().next().unwrap())
-- 
2.43.0


From 34143ef9d2a9ebd96d8b5badb12f4c75ca340b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:34 +0000
Subject: [PATCH 21/26] fix: slicing a string in the middle of a character
 aborted the script

StringSlice took byte offsets to str::split_at, which panics unless both fall between characters; both the offsets and the string come from a data request and its source.
---
 rad/src/operators/string.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rad/src/operators/string.rs b/rad/src/operators/string.rs
index 17af7d4..23efeb3 100644
--- a/rad/src/operators/string.rs
+++ b/rad/src/operators/string.rs
@@ -501,12 +501,11 @@ pub fn string_slice(input: &RadonString, args: &[Value]) -> Result<RadonString,
 
     // Only perform real slicing if the sliced range is not empty
     let sliced_string = if output_length > 0 {
+        // The range may start or end in the middle of a character
         input
             .value()
-            .split_at(start as usize)
-            .1
-            .split_at(output_length)
-            .0
+            .get(start as usize..end as usize)
+            .ok_or_else(wrong_args)?
             .to_owned()
     } else {
         String::new()
-- 
2.43.0


From e41244fe35e8d71a8d5977b0483a49f0c6f88a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:35 +0000
Subject: [PATCH 22/26] fix: sorting by values of different types aborted the
 script

ArraySort required the array to be homogeneous, but compares what the subscript makes of its items: sorting [[1],["a"]] by [[ArrayReduce, Mode]] reached an unreachable!().
---
 rad/src/operators/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad/src/operators/array.rs b/rad/src/operators/array.rs
index 475d5d5..7e170f0 100644
--- a/rad/src/operators/array.rs
+++ b/rad/src/operators/array.rs
@@ -266,8 +266,8 @@ pub fn sort(
     if input.value().is_empty() {
         return Ok(input.clone().into());
     }
-    // Sort not applicable if not homogeneous
-    if !input.is_homogeneous() {
+    // Sort not applicable if not homogeneous, nor if the items to compare are not
+    if !input.is_homogeneous() || !mapped_array.is_homogeneous() {
         return Err(RadError::UnsupportedOpNonHomogeneous {
             operator: "ArraySort".to_string(),
         });
-- 
2.43.0


From e1a59292750cfd2a0d69bb4baa7306bb28481620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:35 +0000
Subject: [PATCH 23/26] fix: a clock set back while a script ran aborted it

The running time of a report was computed with expect() from two readings of the system clock, which is not monotonic.
---
 data_structures/src/radon_report.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/radon_report.rs b/data_structures/src/radon_report.rs
index 828f9a8..0672295 100644
--- a/data_structures/src/radon_report.rs
+++ b/data_structures/src/radon_report.rs
@@ -177,7 +177,8 @@ where
         match (self.start_time, self.completion_time) {
             (Some(start_time), Some(completion_time)) => completion_time
                 .duration_since(start_time)
-                .expect("Completion time should always be equal or greater than start time"),
+                // The system clock may have been set back meanwhile
+                .unwrap_or_default(),
             _ => Duration::default(),
         }
     }
-- 
2.43.0


From 227b8c24da6efd26629e81f0dae7452c2e666498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:28 +0000
Subject: [PATCH 24/26] fix: getting a number without saying from where aborted
 the script

ArrayGetInteger, ArrayGetFloat, MapGetInteger and MapGetFloat sliced their arguments at 1 before checking that there are any, so a script like [[ArrayGetInteger]] panicked.
---
 rad/src/operators/array.rs | 6 ++++--
 rad/src/operators/map.rs   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rad/src/operators/array.rs b/rad/src/operators/array.rs
index 7e170f0..e2eba7c 100644
--- a/rad/src/operators/array.rs
+++ b/rad/src/operators/array.rs
@@ -99,8 +99,10 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonArray, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
-    let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
+    // There may be no arguments at all, which `get` rejects
+    let (position, separators) = args.split_at(args.len().min(1));
+    let item = get::<RadonString, _>(input, position)?.value();
+    let (thousands_separator, decimal_separator) = string::read_separators_from_args(separators);
 
     Ok(RadonString::from(string::replace_separators(
         item,
diff --git a/rad/src/operators/map.rs b/rad/src/operators/map.rs
index 6047d14..607bb5f 100644
--- a/rad/src/operators/map.rs
+++ b/rad/src/operators/map.rs
@@ -57,8 +57,10 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonMap, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
-    let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
+    // There may be no arguments at all, which `get` rejects
+    let (position, separators) = args.split_at(args.len().min(1));
+    let item = get::<RadonString, _>(input, position)?.value();
+    let (thousands_separator, decimal_separator) = string::read_separators_from_args(separators);
 
     Ok(RadonString::from(string::replace_separators(
         item,
-- 
2.43.0


From d6da6e801b005922b3dec2366dfda5f143935577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:45 +0000
Subject: [PATCH 25/26] fix: a revealed error with a break or simple value
 aborted the node

---
 data_structures/src/radon_error.rs | 11 +++++++----
 rad/src/types/mod.rs               |  8 +++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/data_structures/src/radon_error.rs b/data_structures/src/radon_error.rs
index 3e866ee..9343ad8 100644
--- a/data_structures/src/radon_error.rs
+++ b/data_structures/src/radon_error.rs
@@ -171,12 +171,15 @@ pub fn try_from_serde_cbor_value_for_cbor_value(serde_cbor_value: SerdeCborValue
     decoder.value().unwrap()
 }
 
-/// Convert CborValue into SerdeCborValue
-pub fn try_from_cbor_value_for_serde_cbor_value(cbor_value: CborValue) -> SerdeCborValue {
+/// Convert CborValue into SerdeCborValue.
+/// This fails for those values that `serde_cbor` does not support, e.g. `Break` or `Simple`.
+pub fn try_from_cbor_value_for_serde_cbor_value(
+    cbor_value: CborValue,
+) -> Result<SerdeCborValue, anyhow::Error> {
     // FIXME(#953): impl TryFrom<CborValue> for <SerdeCborValue>
     let mut encoder = cbor::encoder::GenericEncoder::new(Cursor::new(Vec::new()));
-    encoder.value(&cbor_value).unwrap();
+    encoder.value(&cbor_value)?;
     let buffer = encoder.into_inner().into_writer().into_inner();
 
-    serde_cbor::from_slice(&buffer).unwrap()
+    Ok(serde_cbor::from_slice(&buffer)?)
 }
diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 9b4d4b7..47912b4 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -130,7 +130,13 @@ impl RadonTypes {
 
     /// Decodes `RadonTypes::RadonError` items from `cbor::value::Value::Array` values.
     pub fn try_error_from_cbor_value(value: CborValue) -> Result<Self, RadError> {
-        match try_from_cbor_value_for_serde_cbor_value(value) {
+        let value =
+            try_from_cbor_value_for_serde_cbor_value(value).map_err(|_| RadError::Decode {
+                from: "CBOR",
+                to: "RadonTypes",
+            })?;
+
+        match value {
             Value::Array(error_args) => Ok(RadonTypes::RadonError(RadError::try_from_cbor_array(
                 error_args,
             )?)),
-- 
2.43.0


From 6f35468dc01825d0326023d2b721463f660a43de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:19 +0000
Subject: [PATCH 26/26] fix: a revealed array or map with an error inside
 aborted the node

---
 rad/src/types/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 47912b4..8f363a9 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -357,9 +357,12 @@ impl TryFrom<RadonTypes> for Value {
             RadonTypes::Array(radon_array) => radon_array.try_into(),
             RadonTypes::Boolean(radon_boolean) => radon_boolean.try_into(),
             RadonTypes::Bytes(radon_bytes) => radon_bytes.try_into(),
-            RadonTypes::RadonError(error) => panic!(
-                "Should never try to build a `serde_cbor::Value` from `RadonTypes::RadonError`. Error was: {error:?}"
-            ),
+            // Errors are only encoded as a whole (see `RadonError::encode_tagged_bytes`), but a
+            // revealed array or map may contain them
+            RadonTypes::RadonError(_) => Err(RadError::Encode {
+                from: "RadonTypes::RadonError",
+                to: "serde_cbor::Value",
+            }),
             RadonTypes::Float(radon_float) => radon_float.try_into(),
             RadonTypes::Integer(radon_integer) => radon_integer.try_into(),
             RadonTypes::Map(radon_map) => radon_map.try_into(),
-- 
2.43.0

