From b6b94363f0847122878204ba8313a11e5ce36004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:50 +0000
Subject: [PATCH 01/14] fix: reject multiproof nodes whose gindex does not fit
 in u64

With overflow checks off (release and guest builds) the gindex of a node
deeper than 63 levels wrapped around and aliased a shallow position.
---
 ssz-multiproofs/src/multiproof.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index c4dbac6..7be3492 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -163,7 +163,11 @@ impl Iterator for GIndexIterator<'_> {
             self.descriptor_index += 1;
             if !bit {
                 self.stack.push(self.current_gindex);
-                self.current_gindex *= 2;
+                // a wrapped gindex would alias a different position of the tree
+                self.current_gindex = self
+                    .current_gindex
+                    .checked_mul(2)
+                    .expect("multiproof is too deep: gindex overflow");
             } else {
                 let result = self.current_gindex;
                 self.current_gindex = self.stack.pop()? * 2 + 1;
-- 
2.43.0


From 0ace2cab4da8d102464f6704138bda53e8b7853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:48 +0000
Subject: [PATCH 02/14] fix: report an invalid ABI-encoded consensus state as
 an error instead of panicking

---
 core/src/abi.rs             |  6 ++----
 core/src/consensus_state.rs | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/src/abi.rs b/core/src/abi.rs
index 2c86824..4aed8f0 100644
--- a/core/src/abi.rs
+++ b/core/src/abi.rs
@@ -14,7 +14,7 @@
 
 use alloy_sol_types::SolValue;
 
-use crate::{ConsensusError, ConsensusState, ensure};
+use crate::{ConsensusError, ConsensusState};
 
 // Defines the Solidity struct layouts for public types
 alloy_sol_types::sol! {
@@ -68,9 +68,7 @@ impl TryFrom<State> for crate::ConsensusState {
     type Error = ConsensusError;
 
     fn try_from(state: State) -> Result<Self, Self::Error> {
-        let state = ConsensusState::new(state.current_justified.into(), state.finalized.into());
-        ensure!(state.is_valid(), ConsensusError::InvalidState);
-        Ok(state)
+        ConsensusState::try_new(state.current_justified.into(), state.finalized.into())
     }
 }
 
diff --git a/core/src/consensus_state.rs b/core/src/consensus_state.rs
index 057eb41..1a70b8d 100644
--- a/core/src/consensus_state.rs
+++ b/core/src/consensus_state.rs
@@ -64,6 +64,21 @@ impl ConsensusState {
         state
     }
 
+    /// Constructs a new `ConsensusState`, returning an error if the provided checkpoints form an
+    /// invalid state.
+    #[inline]
+    pub fn try_new(
+        current_justified_checkpoint: Checkpoint,
+        finalized_checkpoint: Checkpoint,
+    ) -> Result<Self, ConsensusError> {
+        let state = Self {
+            current_justified_checkpoint,
+            finalized_checkpoint,
+        };
+        ensure!(state.is_valid(), ConsensusError::InvalidState);
+        Ok(state)
+    }
+
     /// Returns the finalized checkpoint of the consensus state.
     #[inline]
     pub fn finalized_checkpoint(&self) -> Checkpoint {
-- 
2.43.0


From 1b291bef0ae41b8326f8874e332e9dcb090c8c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:08 +0000
Subject: [PATCH 03/14] fix: compare patched exit epochs with the latest
 earlier patch, not only with the patch of the epoch before

---
 core/src/input_reader/guest_input_reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index c018b3b..985b6a3 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -285,10 +285,12 @@ impl<E: EthSpec> GuestInput<'_, E> {
                 let validator = validators
                     .get(idx)
                     .expect("patched exit_epoch for missing validator");
+                // the patched epochs are not necessarily consecutive
                 let &prev_exit_epoch = self
                     .patches
-                    .get(&(patch_epoch - 1))
-                    .and_then(|p| p.validator_exits.get(idx))
+                    .range(..patch_epoch)
+                    .rev()
+                    .find_map(|(_, p)| p.validator_exits.get(idx))
                     .unwrap_or(&validator.exit_epoch);
 
                 // ignore not changing patches
-- 
2.43.0


From 7378a8e1dbc4caf12d63e0d575b7d8d5f1d23839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 04/14] fix: report requests that no multiproof can represent
 as errors instead of panicking or building an unverifiable proof

---
 ssz-multiproofs/src/builder.rs | 35 +++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/ssz-multiproofs/src/builder.rs b/ssz-multiproofs/src/builder.rs
index 9847ecc..635a22a 100644
--- a/ssz-multiproofs/src/builder.rs
+++ b/ssz-multiproofs/src/builder.rs
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 use crate::multiproof::{Multiproof, calculate_max_stack_depth};
-use crate::{Descriptor, Result};
+use crate::{Descriptor, Error, Result};
 #[cfg(feature = "progress-bar")]
 use indicatif::{ParallelProgressIterator, ProgressBar, ProgressStyle};
 use itertools::Itertools;
@@ -74,9 +74,13 @@ impl MultiproofBuilder {
     }
 
     /// Build the multi-proof for a given container
+    ///
+    /// This will error if no gindex is registered, or if any of them can not be a leaf of the proof: zero, the root
+    /// or an ancestor of another registered gindex.
     #[tracing::instrument(skip(self, container))]
     pub fn build<T: Prove + Sync>(self, container: &T) -> Result<Multiproof<'static>> {
         let gindices = self.gindices.into_iter().collect::<Vec<_>>();
+        check_gindices(&gindices)?;
 
         tracing::debug!("Computing proof indices and value mask");
         let (proof_indices, value_mask) = compute_proof_indices_and_value_mask(&gindices);
@@ -121,6 +125,35 @@ impl MultiproofBuilder {
     }
 }
 
+/// Checks that there is a proof which has all the given indices as leaves.
+fn check_gindices(gindices: &[GeneralizedIndex]) -> Result<()> {
+    let (Some(&min), Some(&max)) = (gindices.first(), gindices.last()) else {
+        return Err(Error::EmptyProof);
+    };
+    if min == 0 {
+        return Err(Error::InvalidGeneralizedIndex);
+    }
+    // The root is never a leaf, as it has to be calculated from the proof
+    if min == 1 {
+        return Err(Error::UnexpectedInternalNode);
+    }
+    // All the indices are on the same level
+    if min.leading_zeros() == max.leading_zeros() {
+        return Ok(());
+    }
+    // In this order an index is directly followed by its descendants, if there are any
+    let sorted = gindices
+        .iter()
+        .sorted_by(|a, b| cmp_binary_lexicographically(**a, **b));
+    for (a, b) in sorted.tuple_windows() {
+        let levels = a.leading_zeros().saturating_sub(b.leading_zeros());
+        if levels > 0 && b >> levels == *a {
+            return Err(Error::UnexpectedInternalNode);
+        }
+    }
+    Ok(())
+}
+
 fn compute_proof_indices_and_value_mask(
     indices: &[GeneralizedIndex],
 ) -> (Vec<GeneralizedIndex>, Vec<bool>) {
-- 
2.43.0


From 0999672d7c5aaf70b410133d578b970f8e28dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 05/14] fix: collect attestations included up to the end of the
 epoch after their target

---
 host/src/input_reader/host_input_reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/host/src/input_reader/host_input_reader.rs b/host/src/input_reader/host_input_reader.rs
index 059bcde..f6f34b9 100644
--- a/host/src/input_reader/host_input_reader.rs
+++ b/host/src/input_reader/host_input_reader.rs
@@ -299,8 +299,9 @@ async fn collect_attestations_for_links<E: EthSpec, CR: ChainReader>(
     // The attestation must be no newer than MIN_ATTESTATION_INCLUSION_DELAY slots.
     // It is safe to ignore this and assume MIN_ATTESTATION_INCLUSION_DELAY = 0
     let start_slot = min_epoch * E::slots_per_epoch();
-    // The attestation must be no older than SLOTS_PER_EPOCH slots.
-    let end_slot = (max_epoch + 1) * E::slots_per_epoch();
+    // The attestation of any slot of the target epoch may be included up to the end of the epoch
+    // following the target.
+    let end_slot = (max_epoch + 2) * E::slots_per_epoch() - 1;
 
     // 1. Fetch all blocks concurrently
     let block_futs =
-- 
2.43.0


From 7ac04ee19153defbb81c8f5a508236f5b912ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 06/14] fix: allow exits initiated from the trusted state's
 epoch on

---
 core/src/input_reader/guest_input_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index 985b6a3..18d9cb0 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -254,11 +254,12 @@ impl<E: EthSpec> GuestInput<'_, E> {
             state.earliest_consolidation_epoch,
         );
 
-        // New exits (consolidations) can only occur with a new block. The earliest this can happen
-        // is during the trusted epoch after the boundary block of the epoch.
+        // New exits (consolidations) can only occur after the trusted state. The earliest this can
+        // happen is the epoch of that state: if the boundary slot of the trusted epoch is empty, the
+        // epoch transitions leading up to it can still eject validators.
         let mut earliest_exit_epoch = std::cmp::max(
             earliest_exit_epoch,
-            spec.compute_activation_exit_epoch(trusted_checkpoint.epoch())?,
+            spec.compute_activation_exit_epoch(state.slot.epoch(E::slots_per_epoch()))?,
         );
 
         // validate the state patched
-- 
2.43.0


From 90d761528761e46461bd392b53091445ad8cf413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 07/14] fix: charge patched exits in the order of their exit
 epochs across patches

---
 core/src/input_reader/guest_input_reader.rs | 45 +++++++++++----------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index 18d9cb0..18b6562 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -29,7 +29,6 @@ use crate::{
 };
 use alloy_primitives::B256;
 use beacon_types::{Attestation, ChainSpec, EthSpec, Fork};
-use itertools::Itertools;
 use safe_arith::{ArithError, SafeArith};
 use serde::{Deserialize, Serialize};
 use serde_with::serde_as;
@@ -262,7 +261,8 @@ impl<E: EthSpec> GuestInput<'_, E> {
             spec.compute_activation_exit_epoch(state.slot.epoch(E::slots_per_epoch()))?,
         );
 
-        // validate the state patched
+        // collect all the exits introduced by the state patches
+        let mut new_exits = Vec::new();
         for (&patch_epoch, patch) in &self.patches {
             debug!("Validating state patch: {}", patch_epoch);
 
@@ -270,17 +270,7 @@ impl<E: EthSpec> GuestInput<'_, E> {
             // Therefore, no new epochs from earlier times must be patched.
             assert!(patch_epoch >= trusted_checkpoint.epoch());
 
-            // even at the earliest_exit_epoch additional exits can happen
-            // we could subtract state.exit_balance_to_consume and
-            // state.consolidation_balance_to_consume to make this more exact
-            let mut exit_balance_to_consume = churn;
-
-            // validate the patched exit epochs, this needs to be sorted by epoch
-            for (idx, &exit_epoch) in patch
-                .validator_exits
-                .iter()
-                .sorted_unstable_by_key(|v| v.1.as_u64())
-            {
+            for (idx, &exit_epoch) in &patch.validator_exits {
                 trace!("Validator {idx} exiting at: {exit_epoch}");
 
                 let validator = validators
@@ -302,17 +292,30 @@ impl<E: EthSpec> GuestInput<'_, E> {
                 // exit_epoch must only change once
                 assert_eq!(prev_exit_epoch, spec.far_future_epoch);
 
-                // exit epoch must be in the future
-                assert!(exit_epoch >= earliest_exit_epoch);
-                exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
-                earliest_exit_epoch = exit_epoch;
-
-                // churn limit must be respected
-                assert!(exit_balance_to_consume >= validator.effective_balance);
-                exit_balance_to_consume -= validator.effective_balance;
+                new_exits.push((exit_epoch, validator.effective_balance));
             }
         }
 
+        // Exits and consolidations are queued independently, so an exit of a later patch can be before
+        // those of earlier patches. This needs to be sorted by epoch over all the patches.
+        new_exits.sort_unstable();
+
+        // even at the earliest_exit_epoch additional exits can happen
+        // we could subtract state.exit_balance_to_consume and
+        // state.consolidation_balance_to_consume to make this more exact
+        let mut exit_balance_to_consume = churn;
+
+        for (exit_epoch, effective_balance) in new_exits {
+            // exit epoch must be in the future
+            assert!(exit_epoch >= earliest_exit_epoch);
+            exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
+            earliest_exit_epoch = exit_epoch;
+
+            // churn limit must be respected
+            assert!(exit_balance_to_consume >= effective_balance);
+            exit_balance_to_consume -= effective_balance;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 7ae0a8ad38d3f3272947f9c484e720dd296b3fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 08/14] fix: clear only stored states, not other files whose
 names start with a slot number

---
 host/src/state_provider/file_provider.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/host/src/state_provider/file_provider.rs b/host/src/state_provider/file_provider.rs
index aa96b27..81ca965 100644
--- a/host/src/state_provider/file_provider.rs
+++ b/host/src/state_provider/file_provider.rs
@@ -61,12 +61,8 @@ impl<E: EthSpec> FileProvider<E> {
         );
         for entry in fs::read_dir(&self.directory)? {
             let entry = entry?;
-            if let Some(file_slot) = entry.file_name().to_str() {
-                if let Some(file_slot) = file_slot
-                    .split('_')
-                    .next()
-                    .and_then(|s| s.parse::<Slot>().ok())
-                {
+            if let Some(file_name) = entry.file_name().to_str() {
+                if let Some(file_slot) = Self::stored_slot(file_name) {
                     if file_slot < slot {
                         fs::remove_file(entry.path())?;
                     }
@@ -75,6 +71,15 @@ impl<E: EthSpec> FileProvider<E> {
         }
         Ok(())
     }
+
+    /// Returns the slot of the state stored under this file name, if it is the name of a stored state.
+    fn stored_slot(file_name: &str) -> Option<Slot> {
+        let slot = file_name
+            .strip_suffix("_beacon_state.ssz")?
+            .parse::<Slot>()
+            .ok()?;
+        (file_name == format!("{slot}_beacon_state.ssz")).then_some(slot)
+    }
 }
 
 impl<E: EthSpec> StateProvider for FileProvider<E> {
-- 
2.43.0


From 4534b5c3fd7e67b19c6068f2e9bd28044490347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 09/14] fix: save states atomically, so that an interrupted
 save never leaves a partial file

---
 host/src/state_provider/file_provider.rs | 27 +++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/host/src/state_provider/file_provider.rs b/host/src/state_provider/file_provider.rs
index 81ca965..bd0d3a9 100644
--- a/host/src/state_provider/file_provider.rs
+++ b/host/src/state_provider/file_provider.rs
@@ -16,7 +16,9 @@ use crate::beacon_state::mainnet::BeaconState;
 use crate::state_provider::{StateProvider, StateProviderError, StateRef};
 use anyhow::{Context, ensure};
 use beacon_types::EthSpec;
-use std::path::PathBuf;
+use std::io::{self, Write};
+use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::{fs, marker::PhantomData};
 use tracing::debug;
 use z_core::{Epoch, Slot};
@@ -48,8 +50,27 @@ impl<E: EthSpec> FileProvider<E> {
             file.display()
         );
         debug!("Saving beacon state at slot {slot} in epoch: {epoch}");
-        fs::write(&file, ssz_rs::serialize(state)?)?;
-        Ok(())
+        let data = ssz_rs::serialize(state)?;
+
+        // write to a temporary file first, so that an interrupted save never leaves a partial state
+        static COUNTER: AtomicU64 = AtomicU64::new(0);
+        let temp = self.directory.join(format!(
+            ".{slot}_beacon_state.ssz.{}-{}.tmp",
+            std::process::id(),
+            COUNTER.fetch_add(1, Ordering::Relaxed)
+        ));
+        let saved = Self::write_synced(&temp, &data).and_then(|()| fs::rename(&temp, &file));
+        if saved.is_err() {
+            let _ = fs::remove_file(&temp);
+        }
+        saved.with_context(|| format!("failed to write beacon state file {}", file.display()))
+    }
+
+    /// Writes a file and makes sure that its content has reached the disk.
+    fn write_synced(path: &Path, data: &[u8]) -> io::Result<()> {
+        let mut file = fs::File::create(path)?;
+        file.write_all(data)?;
+        file.sync_all()
     }
 
     pub fn clear_states_before(&self, epoch: Epoch) -> Result<(), anyhow::Error> {
-- 
2.43.0


From bd6a17a0e612ea12bdf23c3de055135465e4ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 10/14] fix: refuse a state of another slot than the requested
 one from the beacon API

---
 host/src/state_provider/persistant_api_provider.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/host/src/state_provider/persistant_api_provider.rs b/host/src/state_provider/persistant_api_provider.rs
index 1dfcaae..592cd96 100644
--- a/host/src/state_provider/persistant_api_provider.rs
+++ b/host/src/state_provider/persistant_api_provider.rs
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 use crate::state_provider::{StateProvider, StateProviderError, StateRef};
-use anyhow::Context;
+use anyhow::{Context, anyhow};
 use beacon_types::EthSpec;
 use std::path::PathBuf;
 use tokio::runtime::Handle;
@@ -58,6 +58,10 @@ impl<E: EthSpec> StateProvider for PersistentApiStateProvider<E> {
             Handle::current().block_on(self.client.get_beacon_state(slot))
         })
         .context("failed to get state from API")?;
+        if slot != state.slot() {
+            let err = anyhow!("API returned the state of slot {} for {slot}", state.slot());
+            return Err(err.into());
+        }
 
         // Save the state to the file provider for future use
         self.file_provider.save_state(&state)?;
-- 
2.43.0


From 0bcfef3ff9735df5c902e284124264ca48a409b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 11/14] fix: report finality checkpoints that form no valid
 state as an error instead of panicking

---
 host/src/beacon_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/host/src/beacon_client.rs b/host/src/beacon_client.rs
index 906db3d..9a36974 100644
--- a/host/src/beacon_client.rs
+++ b/host/src/beacon_client.rs
@@ -294,9 +294,9 @@ impl ChainReader for BeaconClient {
 
     async fn get_consensus_state(&self, state_id: impl Display) -> anyhow::Result<ConsensusState> {
         let resp = self.get_finality_checkpoints(state_id).await?;
-        Ok(ConsensusState::new(
+        Ok(ConsensusState::try_new(
             resp.current_justified.into(),
             resp.finalized.into(),
-        ))
+        )?)
     }
 }
-- 
2.43.0


From deacf1793f2b50ddcbb2621317897b3d0696ae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:32 +0000
Subject: [PATCH 12/14] fix: refuse chains whose forks do not match the chain
 spec on the host

---
 host/src/input_reader/host_input_reader.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/host/src/input_reader/host_input_reader.rs b/host/src/input_reader/host_input_reader.rs
index f6f34b9..bcf8a8a 100644
--- a/host/src/input_reader/host_input_reader.rs
+++ b/host/src/input_reader/host_input_reader.rs
@@ -60,6 +60,8 @@ pub enum HostReaderError {
     ConsensusError(#[from] ConsensusError),
     #[error("Unable to retrieve finalized block with root: {0}")]
     UnableToRetrieveFinalizedBlock(Root),
+    #[error("Fork of the state at epoch {0} does not match the chain spec")]
+    ForkMismatch(Epoch),
 }
 
 impl From<ArithError> for HostReaderError {
@@ -162,11 +164,18 @@ impl<E: EthSpec, P: StateProvider, CR: ChainReader> InputReader for HostInputRea
 
     fn fork(&self, epoch: Epoch) -> Result<Fork, HostReaderError> {
         let state = self.provider.state_at_epoch(epoch)?;
-        Ok(Fork {
+        let fork = Fork {
             previous_version: state.fork().previous_version,
             current_version: state.fork().current_version,
             epoch: state.fork().epoch.into(),
-        })
+        };
+        // the guest only knows the chain spec, so a chain that forks differently can never verify there
+        ensure!(
+            fork == self.spec.fork_at_epoch(epoch),
+            HostReaderError::ForkMismatch(epoch)
+        );
+
+        Ok(fork)
     }
 
     fn active_validators(
-- 
2.43.0


From ed741a1757aaaa44b360f0c71cd0a3e5bf714242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 13/14] fix: bound the preallocation for multiproof
 verification by the shape

A proof whose stack depth hint was huge made verification panic or abort,
although the same proof with any smaller hint verifies.
---
 ssz-multiproofs/src/multiproof.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index 7be3492..1d8bc02 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -201,7 +201,8 @@ fn calculate_compact_multi_merkle_root(
     descriptor: &Descriptor,
     stack_depth_hint: usize,
 ) -> Result<[u8; CHUNK_SIZE]> {
-    let mut stack = Vec::with_capacity(stack_depth_hint);
+    // the hint is part of the proof: do not let it allocate more than the shape could ever use
+    let mut stack = Vec::with_capacity(stack_depth_hint.min(descriptor.len()));
     let mut node_index = 0;
     let mut hasher = Sha256::new();
     for bit in descriptor.iter() {
-- 
2.43.0


From d841130e1c10d09380c812dd265d8faeeb07d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:26 +0000
Subject: [PATCH 14/14] fix: do not fail a state lookup when a concurrent one
 has saved the same state

---
 host/src/state_provider/persistant_api_provider.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/host/src/state_provider/persistant_api_provider.rs b/host/src/state_provider/persistant_api_provider.rs
index 592cd96..f6e494f 100644
--- a/host/src/state_provider/persistant_api_provider.rs
+++ b/host/src/state_provider/persistant_api_provider.rs
@@ -64,7 +64,13 @@ impl<E: EthSpec> StateProvider for PersistentApiStateProvider<E> {
         }
 
         // Save the state to the file provider for future use
-        self.file_provider.save_state(&state)?;
+        if let Err(err) = self.file_provider.save_state(&state) {
+            // a concurrent lookup may have saved the same state in the meantime
+            return self
+                .file_provider
+                .state_at_slot(slot)
+                .map_err(|_| err.into());
+        }
 
         Ok(state.into())
     }
-- 
2.43.0

