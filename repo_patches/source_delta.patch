From dbea0bba0d722097213f06e91ca91461e12de314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 01/16] fix: refuse handles whose canonical form does not fit
 the storage key

Compatibility decomposition can make the canonical form longer than the base
handle (every Hangul syllable becomes two or three jamo). A canonical form of
more than 32 bytes was silently replaced by the empty canonical base, so
unrelated handles shared one suffix index but not one suffix sequence, and a
later claim could take over the (base, suffix) entry of another MSA.
---
 pallets/handles/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index 9542b23..f6c6d83 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -696,6 +696,13 @@ pub mod pallet {
 				len >= HANDLE_CHARS_MIN && len <= HANDLE_CHARS_MAX,
 				Error::<T>::InvalidHandleCharacterLength
 			);
+
+			// Validation: `Canonical` must fit the storage key, as decomposition can make it longer
+			// than the base handle
+			ensure!(
+				canonical_handle_str.len() as u32 <= HANDLE_BYTES_MAX,
+				Error::<T>::InvalidHandleByteLength
+			);
 			Ok(())
 		}
 
-- 
2.43.0


From acb75d062200051be3e41a4fff25d689351c2499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 02/16] fix: validate_handle also checks the length of the
 canonical form

The query is documented to perform all the checks of claim_handle, but accepted
handles that claim_handle refuses because their canonical form is too short or
too long.
---
 pallets/handles/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index f6c6d83..17fb092 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -775,7 +775,7 @@ pub mod pallet {
 					return Self::validate_canonical_handle_contains_characters_in_supported_ranges(
 						&canonical_handle_str,
 					)
-					.is_ok()
+					.is_ok() && Self::validate_canonical_handle_length(&canonical_handle_str).is_ok()
 				},
 				_ => false,
 			}
-- 
2.43.0


From 94e8adf2f60e2e7498bbcbeabde4f293ad95c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 03/16] fix: generate_unique_suffixes no longer overflows when
 the range ends at u16::MAX

---
 pallets/handles/src/handles-utils/src/suffix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/handles/src/handles-utils/src/suffix.rs b/pallets/handles/src/handles-utils/src/suffix.rs
index 2a1f674..765fbd1 100644
--- a/pallets/handles/src/handles-utils/src/suffix.rs
+++ b/pallets/handles/src/handles-utils/src/suffix.rs
@@ -37,7 +37,7 @@ pub fn generate_unique_suffixes(
 
 	let mut indices: Vec<u16> = (min..=max).collect();
 	(min..=max).rev().map(move |i| {
-		let j = rng.rand_range((min as u32)..(i + 1) as u32) as u16;
+		let j = rng.rand_range((min as u32)..(i as u32 + 1)) as u16;
 		indices.swap((i - min) as usize, (j - min) as usize);
 		indices[(i - min) as usize]
 	})
-- 
2.43.0


From e060a69d87473aa31dad963bed2369b0cd88317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:53 +0000
Subject: [PATCH 04/16] fix: tokens already staked or unlocking cannot be
 staked again

---
 pallets/capacity/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 5b6b696..6ff9317 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -555,12 +555,16 @@ impl<T: Config> Pallet<T> {
 	}
 
 	// Calculates a stakable amount from a proposed amount.
+	// Tokens that are already staked or still unlocking are not stakable again.
 	pub(crate) fn get_stakable_amount_for(
 		staker: &T::AccountId,
 		proposed_amount: BalanceOf<T>,
 	) -> BalanceOf<T> {
 		let account_balance = T::Currency::balance(&staker);
+		let already_staked =
+			T::Currency::balance_frozen(&FreezeReason::CapacityStaking.into(), &staker);
 		account_balance
+			.saturating_sub(already_staked)
 			.saturating_sub(T::MinimumTokenBalance::get())
 			.min(proposed_amount)
 	}
-- 
2.43.0


From e6a3fc009893c9d55098cc014ac43bc6f85a96bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:53 +0000
Subject: [PATCH 05/16] fix: replenish_by_amount stores the replenished
 capacity

---
 pallets/capacity/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 6ff9317..8cc5147 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -719,6 +719,7 @@ impl<T: Config> Replenishable for Pallet<T> {
 		let mut capacity_details =
 			Self::get_capacity_for(msa_id).ok_or(Error::<T>::TargetCapacityNotFound)?;
 		capacity_details.replenish_by_amount(amount, &Self::get_current_epoch());
+		Self::set_capacity_for(msa_id, capacity_details);
 		Ok(())
 	}
 
-- 
2.43.0


From ddb4f511bf24241740de976c30701a4077d12eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:20 +0000
Subject: [PATCH 06/16] fix: delete_msa_public_key removes only other keys of
 the caller's MSA

The dispatchable left ownership and self removal to CheckFreeExtrinsicUse, which
does not see calls wrapped by another call (proxy, as_derivative, multisig), so
any MSA could delete the keys of any other MSA.
---
 pallets/msa/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 4e91298..e39cf5f 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -717,6 +717,10 @@ pub mod pallet {
 
 			match Self::get_msa_by_public_key(&who) {
 				Some(who_msa_id) => {
+					// The SignedExtension only sees calls that are not wrapped by another call
+					ensure!(who != public_key_to_delete, Error::<T>::InvalidSelfRemoval);
+					Self::ensure_msa_owner(&public_key_to_delete, who_msa_id)
+						.map_err(|_| Error::<T>::NotKeyOwner)?;
 					Self::delete_key_for_msa(who_msa_id, &public_key_to_delete)?;
 
 					// Deposit the event
-- 
2.43.0


From c27ede99433f4fe066e8d998fcfd037835150f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:20 +0000
Subject: [PATCH 07/16] fix: do not admit a free revocation of a delegation
 already revoked in this block

ensure_valid_delegation accepts a delegation until the end of the block of its
revocation, so repeated revocations passed CheckFreeExtrinsicUse and then failed
without paying a fee.
---
 pallets/msa/src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index e39cf5f..22f0e6e 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -1647,8 +1647,14 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 			.into();
 		let provider_msa_id = ProviderId(*provider_msa_id);
 
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
-			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		let delegation =
+			Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
+				.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		// Revoked earlier in this block: still valid, but cannot be revoked again
+		ensure!(
+			delegation.revoked_at.is_zero(),
+			InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8)
+		);
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
@@ -1674,8 +1680,14 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 		let delegator_msa_id = DelegatorId(*delegator_msa_id);
 
 		// Verify the delegation exists and is active
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
-			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		let delegation =
+			Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
+				.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		// Revoked earlier in this block: still valid, but cannot be revoked again
+		ensure!(
+			delegation.revoked_at.is_zero(),
+			InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8)
+		);
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
-- 
2.43.0


From dcc7dacf0ed4ec7f4abba4347e2486ec5ffa9be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 08/16] fix: revoking a schema permission again keeps the block
 of its first revocation

revoke_schema_permissions overwrote the recorded block, so a permission revoked
long ago was reported as valid up to the later, repeated revocation.
---
 pallets/msa/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 22f0e6e..9e65647 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -994,6 +994,14 @@ impl<T: Config> Pallet<T> {
 
 			let current_block = frame_system::Pallet::<T>::block_number();
 
+			// A permission that is already revoked keeps the block of its revocation
+			let schema_ids = schema_ids
+				.into_iter()
+				.filter(|id| {
+					delegation.schema_permissions.get(id).map_or(true, |block| block.is_zero())
+				})
+				.collect();
+
 			PermittedDelegationSchemas::<T>::try_get_mut_schemas(
 				delegation,
 				schema_ids,
-- 
2.43.0


From a6cf70ee6e19b11c6999026cc776636c90cd4758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:03 +0000
Subject: [PATCH 09/16] fix: schema id 0 is never issued, so it is not a valid
 schema id

---
 pallets/schemas/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/schemas/src/lib.rs b/pallets/schemas/src/lib.rs
index a6d7b51..c49f813 100644
--- a/pallets/schemas/src/lib.rs
+++ b/pallets/schemas/src/lib.rs
@@ -880,7 +880,7 @@ impl<T: Config> SchemaBenchmarkHelper for Pallet<T> {
 impl<T: Config> SchemaValidator<SchemaId> for Pallet<T> {
 	fn are_all_schema_ids_valid(schema_ids: &Vec<SchemaId>) -> bool {
 		let latest_issue_schema_id = Self::get_current_schema_identifier_maximum();
-		schema_ids.iter().all(|id| id <= &latest_issue_schema_id)
+		schema_ids.iter().all(|id| id > &0 && id <= &latest_issue_schema_id)
 	}
 
 	#[cfg(any(feature = "std", feature = "runtime-benchmarks", test))]
-- 
2.43.0


From eaef27cadbd5a39e370c9e7bd485de060ede19f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:19 +0000
Subject: [PATCH 10/16] fix: a schema named through governance is marked as
 having a name

---
 pallets/schemas/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/schemas/src/lib.rs b/pallets/schemas/src/lib.rs
index c49f813..4cffd47 100644
--- a/pallets/schemas/src/lib.rs
+++ b/pallets/schemas/src/lib.rs
@@ -641,6 +641,11 @@ pub mod pallet {
 				&parsed_name.descriptor,
 				|schema_version_id| -> DispatchResult {
 					schema_version_id.add::<T>(schema_id)?;
+					SchemaInfos::<T>::mutate(schema_id, |schema_info| {
+						if let Some(info) = schema_info {
+							info.has_name = true;
+						}
+					});
 
 					Self::deposit_event(Event::SchemaNameCreated {
 						schema_id,
-- 
2.43.0


From fb60407e850b48ffe62a95b7f2e13eed05891e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:19 +0000
Subject: [PATCH 11/16] fix: a full block refuses a message instead of
 overwriting its last one

---
 pallets/messages/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/messages/src/lib.rs b/pallets/messages/src/lib.rs
index b8ee6b6..cc354a9 100644
--- a/pallets/messages/src/lib.rs
+++ b/pallets/messages/src/lib.rs
@@ -317,6 +317,7 @@ impl<T: Config> Pallet<T> {
 		current_block: BlockNumberFor<T>,
 	) -> Result<bool, DispatchError> {
 		let index = BlockMessageIndex::<T>::get();
+		let next_index = index.checked_add(1).ok_or(Error::<T>::TypeConversionOverflow)?;
 		let first = index == 0;
 		let msg = Message {
 			payload, // size is checked on top of extrinsic
@@ -325,7 +326,7 @@ impl<T: Config> Pallet<T> {
 		};
 
 		<MessagesV2<T>>::insert((current_block, schema_id, index), msg);
-		BlockMessageIndex::<T>::set(index.saturating_add(1));
+		BlockMessageIndex::<T>::set(next_index);
 		Ok(first)
 	}
 
-- 
2.43.0


From ff53232faef72ca27d37bf1d478fa309ed6d6271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:20 +0000
Subject: [PATCH 12/16] fix: validate_cid refuses version 0 identifiers in any
 encoding

---
 pallets/messages/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pallets/messages/src/lib.rs b/pallets/messages/src/lib.rs
index cc354a9..c77d3c4 100644
--- a/pallets/messages/src/lib.rs
+++ b/pallets/messages/src/lib.rs
@@ -52,7 +52,7 @@ pub use pallet::*;
 pub use types::*;
 pub use weights::*;
 
-use cid::Cid;
+use cid::{Cid, Version};
 use frame_system::pallet_prelude::*;
 
 const LOG_TARGET: &str = "runtime::messages";
@@ -384,7 +384,8 @@ impl<T: Config> Pallet<T> {
 
 		// Assume it's a multibase-encoded string. Decode it to a byte array so we can parse the CID.
 		let cid_b = multibase::decode(cid_str).map_err(|_| Error::<T>::InvalidCid)?.1;
-		ensure!(Cid::read_bytes(&cid_b[..]).is_ok(), Error::<T>::InvalidCid);
+		let cid = Cid::read_bytes(&cid_b[..]).map_err(|_| Error::<T>::InvalidCid)?;
+		ensure!(cid.version() == Version::V1, Error::<T>::UnsupportedCidVersion);
 
 		Ok(cid_b)
 	}
-- 
2.43.0


From d7cdef669a234fcc08deef25ddaa786c1e2d19a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:20 +0000
Subject: [PATCH 13/16] fix: a utility batch is allowed only if all of its
 calls are

---
 runtime/frequency/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/frequency/src/lib.rs b/runtime/frequency/src/lib.rs
index 7f77095..f4e837e 100644
--- a/runtime/frequency/src/lib.rs
+++ b/runtime/frequency/src/lib.rs
@@ -168,7 +168,7 @@ impl BaseCallFilter {
 		match call {
 			pallet_utility::Call::batch { calls, .. } |
 			pallet_utility::Call::batch_all { calls, .. } |
-			pallet_utility::Call::force_batch { calls, .. } => calls.iter().any(Self::is_batch_call_allowed),
+			pallet_utility::Call::force_batch { calls, .. } => calls.iter().all(Self::is_batch_call_allowed),
 			_ => true,
 		}
 	}
-- 
2.43.0


From 757f6774b8a34835d51b8373afb8a26db27f2d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:49 +0000
Subject: [PATCH 14/16] fix: an interrupted initial key index does not skip the
 events since it began

---
 pallets/msa/src/offchain_storage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pallets/msa/src/offchain_storage.rs b/pallets/msa/src/offchain_storage.rs
index 612c0a5..fdd7782 100644
--- a/pallets/msa/src/offchain_storage.rs
+++ b/pallets/msa/src/offchain_storage.rs
@@ -260,6 +260,12 @@ fn init_last_processed_block<T: Config>(current_block_number: BlockNumberFor<T>)
 	let last_processed_block_storage =
 		StorageValueRef::persistent(LAST_PROCESSED_BLOCK_STORAGE_NAME);
 
+	// an interrupted initial index is started over: the events since it was first started still have
+	// to be processed, since keys it already added might have been deleted in the meantime
+	if let Ok(Some(_)) = last_processed_block_storage.get::<BlockNumberFor<T>>() {
+		return
+	}
+
 	// setting current_block-1 as the last processed so that we start indexing from current_block
 	let target_block: BlockNumberFor<T> =
 		current_block_number.saturating_sub(BlockNumberFor::<T>::one());
-- 
2.43.0


From 6cb192b2ba94026fad91b4dd4e1718c24f1fb4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:08 +0000
Subject: [PATCH 15/16] fix: the time release migration freezes only what is
 not released yet

---
 pallets/time-release/src/migration/v2.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pallets/time-release/src/migration/v2.rs b/pallets/time-release/src/migration/v2.rs
index b7cde23..ad74468 100644
--- a/pallets/time-release/src/migration/v2.rs
+++ b/pallets/time-release/src/migration/v2.rs
@@ -8,7 +8,10 @@ use frame_support::{
 };
 use parity_scale_codec::Encode;
 use sp_core::hexdisplay::HexDisplay;
-use sp_runtime::{traits::Zero, Saturating};
+use sp_runtime::{
+	traits::{BlockNumberProvider, Zero},
+	Saturating,
+};
 
 const LOG_TARGET: &str = "runtime::time-release";
 
@@ -167,14 +170,14 @@ where
 fn calculate_total_scheduled_frozen_for_account<T: Config>(
 	account_id: &T::AccountId,
 ) -> (BalanceOf<T>, Weight) {
+	// what was released already (and might have been claimed and spent) is not frozen again
+	let now = T::BlockNumberProvider::current_block_number();
 	let total = ReleaseSchedules::<T>::get(&account_id) // 1r
 		.iter()
 		.map(|schedule: &types::ReleaseSchedule<BlockNumberFor<T>, BalanceOf<T>>| {
-			schedule.total_amount()
+			schedule.frozen_amount(now)
 		})
-		.fold(Zero::zero(), |acc: BalanceOf<T>, amount| {
-			acc.saturating_add(amount.unwrap_or(Zero::zero()))
-		});
+		.fold(Zero::zero(), |acc: BalanceOf<T>, amount| acc.saturating_add(amount));
 
 	(total, T::DbWeight::get().reads(1))
 }
-- 
2.43.0


From c5e6b947ad6a97a33386ff5491476e1a0d175a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:32 +0000
Subject: [PATCH 16/16] fix: get_missing_nonces skipped nonces after future
 transactions sharing one

---
 node/service/src/rpc/frequency_rpc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node/service/src/rpc/frequency_rpc.rs b/node/service/src/rpc/frequency_rpc.rs
index 1734f27..714da0f 100644
--- a/node/service/src/rpc/frequency_rpc.rs
+++ b/node/service/src/rpc/frequency_rpc.rs
@@ -132,8 +132,11 @@ where
 			}
 		}
 
-		// progress the current_nonce
-		current_nonce += One::one();
+		// progress the current_nonce, unless it is already past this transaction's: two future
+		// transactions can share a nonce
+		if current_nonce == future_nonce {
+			current_nonce += One::one();
+		}
 	}
 
 	result
-- 
2.43.0

