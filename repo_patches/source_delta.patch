From a436e66a61af25d86adfdfd76f93b9f45936cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:23 +0000
Subject: [PATCH 01/11] fix: log2 of a very small operand returns an error
 instead of panicking

---
 math/src/transcendental.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/src/transcendental.rs b/math/src/transcendental.rs
index 8d6971e..395b393 100644
--- a/math/src/transcendental.rs
+++ b/math/src/transcendental.rs
@@ -77,7 +77,7 @@ where
 
 	let operand = D::from(operand);
 	if operand < D::one() {
-		let inverse = D::one().checked_div(operand).unwrap(); // Unwrap is safe because operand is always > 0
+		let inverse = D::one().checked_div(operand).ok_or(())?;
 		return Ok((log2_inner::<D, D>(inverse), true));
 	}
 	Ok((log2_inner::<D, D>(operand), false))
-- 
2.43.0


From 42bfa901897f3bd47df1f4a3974fb9b84a004f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 02/11] fix: xyk: report the traded amounts of a buy to the
 oracle for the right assets

execute_buy told the AMM handler that the amount bought was the amount of the asset sold and
vice versa, so oracle volumes of buys were recorded for the wrong asset.
---
 pallets/xyk/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/xyk/src/lib.rs b/pallets/xyk/src/lib.rs
index 0090e2c..2e1bf0b 100644
--- a/pallets/xyk/src/lib.rs
+++ b/pallets/xyk/src/lib.rs
@@ -1043,8 +1043,8 @@ impl<T: Config> AMM<T::AccountId, AssetId, AssetPair, Balance> for Pallet<T> {
 			T::OracleSource::get(),
 			transfer.assets.asset_in,
 			transfer.assets.asset_out,
+			transfer.amount_b + transfer.fee.1,
 			transfer.amount,
-			transfer.amount_b,
 			liquidity_in,
 			liquidity_out,
 			Ratio::new(liquidity_in, liquidity_out),
-- 
2.43.0


From 91fcbc76111bb85b2e937079a1a8e62154e6ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 03/11] fix: dca: find the schedule to terminate in the
 unsorted block list by value

The ids planned for a block are appended in planning order, so a binary search misses existing schedules.
---
 pallets/dca/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pallets/dca/src/lib.rs b/pallets/dca/src/lib.rs
index f0504ba..7c0e462 100644
--- a/pallets/dca/src/lib.rs
+++ b/pallets/dca/src/lib.rs
@@ -557,8 +557,9 @@ pub mod pallet {
 					let schedule_ids = maybe_schedule_ids.as_mut().ok_or(Error::<T>::ScheduleNotFound)?;
 
 					let index = schedule_ids
-						.binary_search(&schedule_id)
-						.map_err(|_| Error::<T>::ScheduleNotFound)?;
+						.iter()
+						.position(|id| *id == schedule_id)
+						.ok_or(Error::<T>::ScheduleNotFound)?;
 
 					schedule_ids.remove(index);
 
-- 
2.43.0


From 4705485f31312ae509cfd4361488b183cb8bade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 04/11] fix: staking: a vote locked for the 5x period weighs 5,
 not 4, in action points

---
 pallets/staking/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/staking/src/types.rs b/pallets/staking/src/types.rs
index a4fc396..9364667 100644
--- a/pallets/staking/src/types.rs
+++ b/pallets/staking/src/types.rs
@@ -98,7 +98,7 @@ impl Conviction {
 			Conviction::Locked2x => FixedU128::from(2_u128),
 			Conviction::Locked3x => FixedU128::from(3_u128),
 			Conviction::Locked4x => FixedU128::from(4_u128),
-			Conviction::Locked5x => FixedU128::from(4_u128),
+			Conviction::Locked5x => FixedU128::from(5_u128),
 			Conviction::Locked6x => FixedU128::from(6_u128),
 		}
 	}
-- 
2.43.0


From e8a8b467fbb740f86d464ec0e30cddb8b2dc6d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 05/11] fix: liquidity mining: a new yield farm starts at the
 global farm's accumulated rewards

---
 pallets/liquidity-mining/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/liquidity-mining/src/lib.rs b/pallets/liquidity-mining/src/lib.rs
index 2197c9a..da3c283 100644
--- a/pallets/liquidity-mining/src/lib.rs
+++ b/pallets/liquidity-mining/src/lib.rs
@@ -686,8 +686,11 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 
 					let yield_farm_id = Self::get_next_farm_id()?;
 
-					let yield_farm =
+					let mut yield_farm =
 						YieldFarmData::new(yield_farm_id, current_period, loyalty_curve.clone(), multiplier);
+					//NOTE: rewards accumulated in the global farm before the yield farm was created don't
+					//belong to it. `sync_yield_farm()` doesn't catch up in the period of creation.
+					yield_farm.accumulated_rpz = global_farm.accumulated_rpz;
 
 					<YieldFarm<T, I>>::insert((amm_pool_id, global_farm_id, yield_farm_id), yield_farm);
 					global_farm.increase_yield_farm_counts()?;
-- 
2.43.0


From 713bf211cad540fd7985ccc0db7ae4b756f28b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 06/11] fix: liquidity mining: shares are withdrawn only from
 the pool they were deposited in

---
 pallets/liquidity-mining/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pallets/liquidity-mining/src/lib.rs b/pallets/liquidity-mining/src/lib.rs
index da3c283..f9a0904 100644
--- a/pallets/liquidity-mining/src/lib.rs
+++ b/pallets/liquidity-mining/src/lib.rs
@@ -318,6 +318,9 @@ pub mod pallet {
 		/// Action cannot be completed because unexpected error has occurred. This should be reported
 		/// to protocol maintainers.
 		InconsistentState(InconsistentStateError),
+
+		/// Deposit was made in a different AMM pool.
+		InvalidAmmPoolId,
 	}
 
 	//NOTE: these errors should never happen.
@@ -1914,6 +1917,11 @@ impl<T: Config<I>, I: 'static> hydradx_traits::liquidity_mining::Mutate<T::Accou
 		yield_farm_id: YieldFarmId,
 		amm_pool_id: Self::AmmPoolId,
 	) -> Result<(Self::Balance, Option<(T::AssetId, Self::Balance, Self::Balance)>, bool), Self::Error> {
+		//NOTE: caller pays out shares of the pool it passed, it must be the pool of the deposit.
+		let deposit = Self::deposit(deposit_id)
+			.defensive_ok_or::<Error<T, I>>(InconsistentStateError::DepositNotFound.into())?;
+		ensure!(deposit.amm_pool_id == amm_pool_id, Error::<T, I>::InvalidAmmPoolId);
+
 		let claim_data = if Self::is_yield_farm_claimable(global_farm_id, yield_farm_id, amm_pool_id) {
 			let fail_on_doubleclaim = false;
 			let (_, reward_currency, claimed, unclaimable) =
-- 
2.43.0


From 96a7b1d89b19fea69efe708b0885310bf9d48a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 07/11] fix: asset-registry set_location refuses an asset that
 already has a location

---
 pallets/asset-registry/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/asset-registry/src/lib.rs b/pallets/asset-registry/src/lib.rs
index 6a9174b..7f3d669 100644
--- a/pallets/asset-registry/src/lib.rs
+++ b/pallets/asset-registry/src/lib.rs
@@ -553,6 +553,7 @@ impl<T: Config> Pallet<T> {
 			Self::location_assets(&location).is_none(),
 			Error::<T>::LocationAlreadyRegistered
 		);
+		ensure!(Self::locations(asset_id).is_none(), Error::<T>::CannotUpdateLocation);
 
 		AssetLocations::<T>::insert(asset_id, &location);
 		LocationAssets::<T>::insert(&location, asset_id);
-- 
2.43.0


From 1c44b2b4858e78c1dd64a9d9d6b2d96ff12a49ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 08/11] fix: use up an EVM permit's nonce before its call is
 executed

---
 runtime/hydradx/src/evm/permit.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtime/hydradx/src/evm/permit.rs b/runtime/hydradx/src/evm/permit.rs
index bce5449..e855421 100644
--- a/runtime/hydradx/src/evm/permit.rs
+++ b/runtime/hydradx/src/evm/permit.rs
@@ -95,6 +95,10 @@ where
 		let account_id = <R as pallet_evm::Config>::AddressMapping::into_account_id(source);
 		let source_nonce = frame_system::Account::<R>::get(&account_id).nonce;
 
+		// Permit must be used up before the call is executed, so it cannot be dispatched again by the called contract.
+		let permit_nonce = NoncesStorage::get(source);
+		NoncesStorage::insert(source, permit_nonce + U256::one());
+
 		let is_transactional = true;
 		let validate = true;
 		let info = match <R as pallet_evm::Config>::Runner::call(
@@ -115,6 +119,7 @@ where
 		) {
 			Ok(info) => info,
 			Err(e) => {
+				NoncesStorage::insert(source, permit_nonce);
 				return Err(DispatchErrorWithPostInfo {
 					post_info: PostDispatchInfo {
 						actual_weight: Some(e.weight),
@@ -131,9 +136,6 @@ where
 		);
 		frame_system::Account::<R>::mutate(account_id, |a| a.nonce -= <R as frame_system::Config>::Nonce::one());
 
-		let permit_nonce = NoncesStorage::get(source);
-		NoncesStorage::insert(source, permit_nonce + U256::one());
-
 		let mut gas_to_weight = <R as pallet_evm::Config>::GasWeightMapping::gas_to_weight(
 			info.used_gas.standard.unique_saturated_into(),
 			true,
-- 
2.43.0


From 37ae33618285e774df2945a3a654dcbd409bb3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 09/11] fix: pay fees only in currencies accepted for payment
 when a call requests the currency

---
 pallets/transaction-multi-payment/src/lib.rs | 27 ++++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pallets/transaction-multi-payment/src/lib.rs b/pallets/transaction-multi-payment/src/lib.rs
index ac2d0ca..1dbe73c 100644
--- a/pallets/transaction-multi-payment/src/lib.rs
+++ b/pallets/transaction-multi-payment/src/lib.rs
@@ -536,6 +536,11 @@ impl<T: Config> Pallet<T> {
 		Pallet::<T>::get_currency(who).unwrap_or_else(T::NativeAssetId::get)
 	}
 
+	/// Native asset and accepted currencies can be used to pay transaction fees.
+	fn is_payment_currency(currency: AssetIdOf<T>) -> bool {
+		currency == T::NativeAssetId::get() || AcceptedCurrencies::<T>::contains_key(currency)
+	}
+
 	fn get_currency_price(currency: AssetIdOf<T>) -> Option<Price>
 	where
 		BalanceOf<T>: FixedPointOperand,
@@ -634,6 +639,11 @@ where
 			Pallet::<T>::account_currency(who)
 		};
 
+		// Currency requested by the call must be accepted as a payment currency.
+		if currency != Pallet::<T>::account_currency(who) && !Pallet::<T>::is_payment_currency(currency) {
+			return Err(InvalidTransaction::Payment.into());
+		}
+
 		let price = Pallet::<T>::get_currency_price(currency)
 			.ok_or(TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
 
@@ -779,8 +789,8 @@ where
 	fn try_convert(
 		call: &<T as frame_system::Config>::RuntimeCall,
 	) -> Result<AssetIdOf<T>, &<T as frame_system::Config>::RuntimeCall> {
-		if let Some(crate::pallet::Call::set_currency { currency }) = call.is_sub_type() {
-			Ok(*currency)
+		let currency = if let Some(crate::pallet::Call::set_currency { currency }) = call.is_sub_type() {
+			*currency
 		} else if let Some(pallet_utility::pallet::Call::batch { calls })
 		| Some(pallet_utility::pallet::Call::batch_all { calls })
 		| Some(pallet_utility::pallet::Call::force_batch { calls }) = call.is_sub_type()
@@ -788,11 +798,18 @@ where
 			// `calls` can be empty Vec
 			match calls.first() {
 				Some(first_call) => match first_call.is_sub_type() {
-					Some(crate::pallet::Call::set_currency { currency }) => Ok(*currency),
-					_ => Err(call),
+					Some(crate::pallet::Call::set_currency { currency }) => *currency,
+					_ => return Err(call),
 				},
-				_ => Err(call),
+				_ => return Err(call),
 			}
+		} else {
+			return Err(call);
+		};
+
+		// Currency requested by the call must be accepted as a payment currency.
+		if Pallet::<T>::is_payment_currency(currency) {
+			Ok(currency)
 		} else {
 			Err(call)
 		}
-- 
2.43.0


From 4a3b08f3c63fb7bea0240e03f6b30345f0c1d300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:17 +0000
Subject: [PATCH 10/11] fix: charge set_route for quoting the route already
 stored

The worst-case weight of the two quotes of the stored route was computed and
dropped.
---
 runtime/hydradx/src/assets.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/hydradx/src/assets.rs b/runtime/hydradx/src/assets.rs
index d417620..1520482 100644
--- a/runtime/hydradx/src/assets.rs
+++ b/runtime/hydradx/src/assets.rs
@@ -1031,8 +1031,10 @@ impl AmmTradeWeights<Trade<AssetId>> for RouterWeightInfo {
 
 		//For the stored route we expect a worst case with max number of trades in the most expensive pool which is stableswap
 		//We have have two sell calculation for that, normal and inverse
-		weights::pallet_stableswap::HydraWeight::<Runtime>::router_execution_sell(2, 0)
-			.checked_mul(MAX_NUMBER_OF_TRADES.into());
+		weight.saturating_accrue(
+			weights::pallet_stableswap::HydraWeight::<Runtime>::router_execution_sell(2, 0)
+				.saturating_mul(MAX_NUMBER_OF_TRADES.into()),
+		);
 
 		//Calculate sell amounts for the new route
 		for trade in route {
-- 
2.43.0


From cd59943263011ca75800fcac87bd27a5cd766ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 11/11] fix: withdraw_protocol_liquidity is charged for the
 liquidity hook it runs

---
 pallets/omnipool/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pallets/omnipool/src/lib.rs b/pallets/omnipool/src/lib.rs
index 245e458..b460399 100644
--- a/pallets/omnipool/src/lib.rs
+++ b/pallets/omnipool/src/lib.rs
@@ -1537,7 +1537,9 @@ pub mod pallet {
 		/// It works the same way as remove liquidity call, but position is temporary reconstructed.
 		///
 		#[pallet::call_index(11)]
-		#[pallet::weight(<T as Config>::WeightInfo::withdraw_protocol_liquidity())]
+		#[pallet::weight(<T as Config>::WeightInfo::withdraw_protocol_liquidity()
+			.saturating_add(T::OmnipoolHooks::on_liquidity_changed_weight())
+		)]
 		#[transactional]
 		pub fn withdraw_protocol_liquidity(
 			origin: OriginFor<T>,
-- 
2.43.0

