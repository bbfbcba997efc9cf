"""Property texts of the pallet family (symbolic evaluation of dispatchables over the FRAME model)."""
TECH = "path-sensitive symbolic evaluation of the parsed pallet source over a FRAME effect model (storage, currencies, events), with linear (Farkas) entailment from the path's own comparisons"
NOTE = ("Every path of each named dispatchable is evaluated from /repo's source with storage, Config calls, currency movements and events as effects; what the evaluator cannot model is left "
        "undecided and never reported. The pallets are not compiled here, so names are resolved by the front-end, not by rustc.")
ALL = "every caller, argument, storage state and outcome of external calls"
WHY = "Tests drive chosen accounts and amounts through one pallet configuration; the relation must hold on every path of every dispatchable and for every state"


def P(i, title, st, files, mech, run, why=None, over=("inputs", "histories"), text=ALL, note=NOTE, tech=TECH):
    return dict(id=i, title=title, statement=st, text=text, files=files, mech=mech, why=(why or WHY) + ".", over=list(over), tech=tech, note=note, level="other", mods=None, observe=None, run=run)


def L(p):
    return f"pallets/{p}/src/lib.rs"


POOLS = [L("omnipool"), L("stableswap"), L("xyk"), L("lbp")]
PROPS = [
 P("P01", "Every dispatchable acts only under its documented origin",
   "On every path of every dispatchable, no storage write, currency movement, external call or event happens before the origin check that the dispatchable documents has passed. "
   "Privileged operations require their configured authority origin (registry, technical, authority, controller, root), user operations a signed account, and only unsigned entry points accept none. "
   "No dispatchable with effects omits its origin check.",
   sorted({L(p) for p in ("omnipool", "stableswap", "xyk", "lbp", "asset-registry", "circuit-breaker", "staking", "otc", "route-executor", "claims", "evm-accounts")}),
   [("origin checks", L("omnipool")), ("permit dispatch", L("transaction-multi-payment"))], ("p_origins", "run")),
 P("P02", "Trades move exactly the stated amount and respect the caller's limit",
   "A successful sell debits the caller exactly the stated amount of the sold asset and credits at least the stated minimum of the bought one; a successful buy credits exactly the stated amount and debits at most the stated maximum. "
   "This holds for the omnipool, stableswap, constant-product and bootstrapping pools. "
   "The router reports a sale of the stated amount with at least the minimum received, or a purchase of the stated amount at no more than the maximum.",
   POOLS + [L("route-executor"), "pallets/lbp/src/trade_execution.rs", "pallets/xyk/src/trade_execution.rs"], [("limits", L("omnipool")), ("limits", L("stableswap")), ("router limits", L("route-executor"))],
   ("p_trades", "limits")),
 P("P03", "Trades settle between caller and pool at the pool's own formula",
   "Every currency movement of a trade is between the caller and the pool of the traded pair; the only exceptions are fees to the configured collector or burned. "
   "The amount that the caller did not state is the pool formula applied to that pool's reserves, the stated amount, and the fee, weights and amplification configured or stored for it. "
   "Reserves enter the formula as they were before the trade moved anything.",
   POOLS, [("trade execution", L("omnipool")), ("trade execution", L("stableswap")), ("trade execution", L("xyk")), ("trade execution", L("lbp"))], ("p_trades", "formulas")),
 P("P04", "Omnipool records stay in step with the pool account and positions",
   "Every omnipool dispatchable changes the pool account's hub asset balance by exactly the sum of the changes of the assets' recorded hub reserves, and moves the pool's balance of an asset by the recorded change of its reserve. "
   "Shares other than the protocol's change by exactly the change of the shares held by positions. "
   "An asset's or position's record is never written from a value read before another write to a possibly identical record.",
   [L("omnipool"), "pallets/omnipool/src/types.rs"], [("state updates", L("omnipool")), ("state deltas", "pallets/omnipool/src/types.rs")], ("p_omnipool", "accounting")),
 P("P05", "The omnipool hub imbalance moves with each state change and stays negative",
   "Each trade, liquidity move and asset addition or removal moves the stored hub asset imbalance by exactly the imbalance delta of that state change. "
   "The stored imbalance never becomes positive. "
   "Dispatchables that change no asset state leave it alone.",
   [L("omnipool"), "pallets/omnipool/src/types.rs"], [("imbalance updates", L("omnipool"))], ("p_omnipool", "imbalances")),
 P("P06", "Liquidity moves respect limits, minimums, ownership and flags",
   "Adding liquidity or creating a pool succeeds only with an existing or new pool of allowed assets, at least the minimum amounts, within the caller's limits and the pool's caps, and while the asset's state allows it. "
   "Removing liquidity succeeds only for the owner of the position or shares, within what they hold, while the asset's state allows it, at no less than the caller's minimum, and never leaves a remainder below the minimum. "
   "A liquidity change of the omnipool outside a safe withdrawal must pass the price barrier.",
   POOLS, [("checks", L("omnipool")), ("checks", L("stableswap")), ("checks", L("xyk")), ("checks", L("lbp"))], ("p_liquidity", "limits")),
 P("P07", "Liquidity moves pay out, mint and record exactly the computed amounts",
   "Every currency movement of adding or removing liquidity is between the caller and the pool account, with the shares minted to or burned from the caller, in the amounts of the pool's own liquidity formula on its reserves and share issuance. "
   "Share totals and omnipool positions change by exactly those amounts, and a position or pool emptied of shares is removed together with its claim. "
   "No other movement happens.",
   POOLS, [("settlement", L("omnipool")), ("settlement", L("stableswap")), ("settlement", L("xyk")), ("settlement", L("lbp"))], ("p_liquidity", "formulas")),
 P("P08", "A trade happens only in a running pool, with allowed assets and amounts",
   "A trade succeeds only with an existing pool and at least the configured minimum amount, and only if the traded assets' flags allow selling the one and buying the other. "
   "In the omnipool, constant-product and bootstrapping pools no more than the configured fraction of either reserve can be sold or bought. "
   "Omnipool and stableswap trades are between two different assets, the omnipool's hub asset is never bought, and a bootstrapping pool trades only between its start and end block.",
   POOLS, [("trade checks", L("omnipool")), ("trade checks", L("stableswap")), ("trade checks", L("xyk")), ("trade checks", L("lbp"))], ("p_tradeguards", "guards")),
 P("P09", "Observers of trades and liquidity changes are told what happened",
   "Every trade or liquidity change of the constant-product pool, omnipool or stableswap notifies its observer exactly once for the traded pair or changed asset. "
   "The amounts, reserves and prices told are those of the assets that moved: constant-product reserves and stableswap states after are read after the movements. "
   "The omnipool's states before and after are those read and stored, and the reserve changes told are their difference.",
   POOLS[:3], [("hook calls", L("omnipool")), ("hook calls", L("stableswap")), ("hook calls", L("xyk"))], ("p_tradeguards", "observers")),
 P("P10", "OTC orders are backed by reserved funds and settle at their own price",
   "Placing an order reserves exactly the offered amount of the caller, for registered assets and amounts of at least the configured multiple of each asset's existential deposit. "
   "A fill releases the owner's reserve of exactly the delivered amount and exchanges it for exactly the payment the order states, or for a partially fillable order its floor-rounded proportional part; the remaining order is the difference and keeps both minimums. "
   "A filled or cancelled order is removed, and only its owner can cancel it and get the reserve back.",
   [L("otc")], [("placing", L("otc")), ("filling", L("otc"))], ("p_market", "otc")),
 P("P11", "Bonds are escrowed one to one and redeemable only from maturity on",
   "Issuing bonds takes the stated amount from the issuer: the protocol fee goes to the fee receiver, the rest to the pallet account, and exactly that rest is minted as bonds; only assets of allowed types and maturities not in the past make a new bond. "
   "A bond's asset and maturity are recorded once and never changed. "
   "Redeeming burns the stated bonds and pays exactly as much of the underlying asset from the pallet account, not before maturity.",
   [L("bonds")], [("issue", L("bonds")), ("redeem", L("bonds"))], ("p_market", "bonds")),
 P("P12", "EVM addresses map to accounts reversibly and are bound only once",
   "The account of an EVM address is the address with the 12 bytes stored for it if bound, and otherwise 'ETH\\0', the address and zero padding; an account's address is its first 20 bytes, and exactly the padded accounts are recognised as EVM accounts. "
   "Binding stores the caller's own remaining bytes under the caller's own address, only once and only while that address has no nonce. "
   "The contract deployer list changes only for the given (or, when renouncing, the caller's) address, and deployment is allowed exactly to listed addresses.",
   [L("evm-accounts")], [("byte layout and binding", L("evm-accounts"))], ("p_small", "evm")),
 P("P13", "A claim pays the recorded amount once to the account that was signed for",
   "A claim pays the caller exactly the amount recorded for the Ethereum address recovered from the signature over the caller's account and the configured prefix. "
   "An empty claim fails, and a paid claim is cleared. "
   "No other claim changes and nothing else is paid.",
   [L("claims")], [("claim", L("claims"))], ("p_small", "claims")),
 P("P14", "Dusting takes only dust, whole, and never from exempt accounts",
   "An account is dusted only if it is not exempt and its total balance of the asset is below the existential deposit; its whole balance then goes to the dust account. "
   "The only other movement is the configured reward from the reward account to the caller. "
   "Exemptions change only for the named account.",
   [L("duster")], [("dusting", L("duster"))], ("p_small", "duster")),
 P("P15", "Paused calls are exactly those recorded by pallet and function name",
   "Pausing records, and unpausing removes, exactly the given pallet and function, and the pausing pallet's own calls cannot be paused. "
   "The call filter rejects a call exactly if its own pallet and function name are recorded.",
   [L("transaction-pause")], [("filter", L("transaction-pause"))], ("p_small", "tx_pause")),
 P("P16", "Incoming XCM transfers over the rate limit are deferred",
   "Every fungible asset arriving by reserve deposit or teleport that has a rate limit adds its amount to the asset's accumulated amount, decayed by the relay blocks since its last update, which is stamped with the current relay block. "
   "The message is deferred by the largest deferral any of its assets requires, capped at the maximum, and not at all if none requires one. "
   "A message of an unknown version is deferred for the maximum and changes nothing.",
   [L("xcm-rate-limiter")], [("deferral", L("xcm-rate-limiter"))], ("p_small", "xcm_limit")),
 P("P17", "Collators of a session are each rewarded once, at its end",
   "Starting a session records the collators that the session manager chose, and no others. "
   "Ending a session consumes the record and pays the configured reward to each recorded collator that is not excluded, and nothing else. "
   "The session manager's own choice and notification pass through unchanged.",
   [L("collator-rewards")], [("rewards", L("collator-rewards"))], ("p_small", "collator_rewards")),
 P("P18", "Per-block trade volume and liquidity changes stay within their limits",
   "Within a block the net amount of an asset sold into or bought out of the pool, and the liquidity of it added or removed, cannot exceed the asset's configured share of its reserve at its first use in the block; the hub asset's volume, and the liquidity moves of exempt accounts, are not limited. "
   "Each trade or liquidity move adds exactly its own amounts to the asset's records, which the end of the block clears. "
   "Limits are set only within the allowed range, for the named asset and never for the hub asset's volume.",
   [L("circuit-breaker")], [("limits", L("circuit-breaker"))], ("p_protect", "breaker")),
 P("P19", "Oracle entries record each block's trades and smooth them by period",
   "A trade or liquidity change of a whitelisted pair is recorded for its ordered pair in the block's accumulator, with the amounts, reserves and price in that order and stamped with the current block; trades without liquidity and other pairs are not recorded. "
   "The end of the block empties the accumulator into every configured period, each entry brought up to the parent block with the last block's price and then smoothed with the period's own factor. "
   "An entry read for a pair is as of the parent block, inverted for the reversed pair, with its own age.",
   [L("ema-oracle")], [("recording and smoothing", L("ema-oracle"))], ("p_oracle", "oracle")),
 P("P20", "Routed trades follow their route hop by hop at the computed amounts",
   "A routed trade follows the given route of at most five trades, or the pair's stored route (inverted for the reversed pair), or the default trade; the route must lead from the sold to the bought asset without gaps. "
   "Each trade is executed as the caller in its own pool for the amount computed from the hop before it (after it, for purchases), any failing hop fails the whole, and the caller's limit holds for the final amount. "
   "A user replaces a stored route only by one over sufficient assets that validates and gives more in both directions.",
   [L("route-executor"), "traits/src/router.rs"], [("trading", L("route-executor")), ("stored routes", L("route-executor"))], ("p_router", "router")),
 P("P21", "Recurring orders reserve their funds, trade within limits and are never lost",
   "A schedule reserves exactly its total amount from its owner; each trade and fee unreserves exactly what it spends and lowers the recorded remainder by it; completion or termination returns exactly the recorded remainder and removes every record. "
   "A trade runs for its owner along its route at the order's amount (or the smaller remainder), within the order's limit and the last block's price less (plus, for purchases) the allowed slippage. "
   "Every schedule of the executed block is completed, terminated, or put into a later block's list with a free slot, and its retries are counted.",
   [L("dca")], [("execution", L("dca")), ("planning", L("dca"))], ("p_dca", "dca")),
 P("P22", "Stakers are paid their share and locks match the recorded stake",
   "Before any stake changes, rewards that arrived in the pot are distributed over the stakes; claiming, adding and unstaking pay the owner exactly the claimable rewards of the position and lower the pot's reserved balance by exactly what is paid or given back. "
   "The recorded position and total stake follow each operation, the lock covers stake plus locked rewards, a position with votes outstanding cannot be claimed, increased or removed, and no one stakes vested or already staked funds. "
   "Each vote counts once, when its referendum is finished, with at most the stake and the free balance, weighted by its conviction (0.1 without lock, n for the n-th lock period).",
   [L("staking"), "pallets/staking/src/types.rs", "pallets/staking/src/integrations/democracy.rs"], [("positions and rewards", L("staking")), ("votes", "pallets/staking/src/integrations/democracy.rs")], ("p_staking", "staking")),
 P("P23", "Liquidity mining farms owe exactly what they collected and track stakes truly",
   "Rewards move from a global farm's account to the pot exactly as the farm's stake, yield, cap and elapsed periods allow, and what the pot holds always equals the farms' pending plus undistributed rewards: claims, terminations and withdrawals move exactly what they take off these records, claims to the caller (or, below the existential deposit, the treasury). "
   "Before any stake, multiplier, state or price changes, farms are synchronised; stakes follow the valued shares and multipliers exactly, and a new, resumed or empty farm gets no rewards accumulated before. "
   "Only the owner manages a farm, farms go through active, stopped and terminated in that order and are removed only when nothing is left in them, and a deposit's entry records its value and time of entry.",
   [L("liquidity-mining"), "pallets/liquidity-mining/src/types.rs"], [("synchronisation and stakes", L("liquidity-mining"))], ("p_farms", "farms")),
 P("P24", "Farm deposits move exactly their tokens, for their holder, in their pool",
   "Depositing moves the caller's own omnipool position (or the exact XYK share tokens) to the pallet, records it for the new deposit, valued at the oracle price (at the pool's liquidity behind the shares), and mints the deposit NFT to the caller. "
   "Only the holder of the deposit redeposits, claims or withdraws, in the pool the deposit was made in: withdrawing claims first where possible, and the last withdrawal returns exactly the deposited position or share tokens to the holder and burns the NFT. "
   "Global farms are created with the privileged origin, and farms are managed as the caller for the named pool, which must exist when a yield farm is created, updated or resumed.",
   [L("omnipool-liquidity-mining"), L("xyk-liquidity-mining"), L("liquidity-mining")], [("deposits", L("xyk-liquidity-mining")), ("deposits", L("omnipool-liquidity-mining"))], ("p_lmcalls", "calls")),
 P("P25", "Referral shares follow the fees taken; claims pay their part of the pot",
   "From a trade fee exactly the floored percentages of the trader, the linked referrer and the external account (those of the asset and level, else the level's) are moved to the pot, never more than the fee; each gets the worth of its part in the reward asset as shares, and the total grows by exactly these. "
   "A claim first converts the pending fees, pays the account the floored part of the pot above its seed that its shares are of all shares, uses them up, and counts the referrer's rewards, whose level rises only past the thresholds reached. "
   "A code belongs to one account, is recorded in upper case against the fee, is linked once and never by its own holder, and percentages never exceed the whole fee.",
   [L("referrals")], [("fees and claims", L("referrals"))], ("p_referrals", "referrals")),
 P("P26", "Registered assets keep unique ids, names and locations",
   "A new asset gets the chosen id, which must lie below the sequential range and be free, or the next sequential id, which is then never given again; it is recorded as described, its name and symbol are not shorter than the minimum, its symbol has no whitespace, and its name and location lead to it and to no other asset before. "
   "An update changes exactly the given fields of an existing asset and releases the former name and location; only the registry origin changes a location or decimals already set, and a sufficient asset stays sufficient. "
   "Only registered assets are banned, and queries answer from the record, an unknown asset being neither sufficient nor existing.",
   [L("asset-registry")], [("registration and updates", L("asset-registry"))], ("p_registry", "registry")),
 P("P27", "Currency operations reach the right ledger, parties and amounts",
   "Every operation of the multi-currency interface (transfers, deposits, withdrawals, slashes, locks, plain and named reserves, queries) is performed once, as the same operation with the same parties and amount, on the native currency exactly for the native asset and on the token ledger for any other; only transfers to oneself and zero amounts are skipped. "
   "Failures are reported and answers are the ledger's own; adapters of a single currency and of the balances pallet forward likewise, reporting what could not be slashed and refusing partial deposits. "
   "A signed transfer moves the amount from the signer to the looked-up destination, and transferring all moves every token and the whole free native balance.",
   [L("currencies")], [("forwarded operations", L("currencies"))], ("p_currencies", "currencies")),
 P("P28", "Fees are paid in an accepted currency at its price and settled exactly",
   "A transaction's fee is taken once from its sender, in the currency the call itself (or the first call of a batch) sets, which must be native or accepted, else in the account's currency; the amount is the fee at the currency's cached, oracle or fallback price, at least 1, and it is recorded as taken, so that afterwards exactly the overpaid part is given back and the corrected fee with its tip passed on in that same currency. "
   "Only native or accepted currencies can be set, only listed currencies are removed and new ones other than the native asset added; prices are stored for each accepted currency at the start of a block and forgotten at its end, and an account's currency is set by its first accepted token, and forgotten when the account or its holding of it is gone. "
   "A permit runs only after validation over all its fields, exactly as signed, with the currency override set for its execution only; it never fails as a call, and admitting it requires a successful dry run which leaves no trace.",
   [L("transaction-multi-payment")], [("fees, currencies and permits", L("transaction-multi-payment"))], ("p_payment", "payment")),
 P("P29", "An EVM permit is executed once, only as its signer signed it and in time",
   "A permit is accepted, by the precompile and by the runtime's handler of permit transactions alike, only when its deadline is not before the current time in seconds and its signature recovers to the non-zero address it spends for, over a digest that covers the domain, caller, target, value, call data, gas limit, deadline and the signer's current nonce. "
   "The nonce is raised by exactly one before the permitted call runs, so that neither a repeated submission nor the called contract can use the permit again; a refused permit leaves it as it was. "
   "The call is made once, exactly as signed with the signer as caller, with the gas it asks for, and success is reported only when the call succeeded.",
   ["precompiles/call-permit/src/lib.rs", "runtime/hydradx/src/evm/permit.rs"], [("permit precompile", "precompiles/call-permit/src/lib.rs"), ("permit handler", "runtime/hydradx/src/evm/permit.rs")], ("p_permit", "permit")),
 P("P30", "Every currency is an ERC20 token of its own address, moved only by its holder",
   "An asset id and its token address convert into each other without loss, and exactly the addresses with the asset prefix are token addresses; each address runs its own precompile, none of HydraDX's own by delegation. "
   "At a token address, transfer moves exactly the given amount of that asset from the calling address's account to the recipient's, once, and only outside static and paying calls; it reports success only when the tokens moved, and nothing else moves tokens. "
   "The other functions answer with that asset's name, symbol, decimals, total issuance or the given owner's free balance, and allowances are refused.",
   ["runtime/hydradx/src/evm/precompiles/multicurrency.rs", "runtime/hydradx/src/evm/precompiles/erc20_mapping.rs", "runtime/hydradx/src/evm/precompiles/mod.rs", "runtime/hydradx/src/evm/precompiles/handle.rs"],
   [("token functions", "runtime/hydradx/src/evm/precompiles/multicurrency.rs"), ("addresses", "runtime/hydradx/src/evm/precompiles/erc20_mapping.rs")], ("p_erc20", "erc20")),
 P("P31", "EVM gas is paid in the account's currency and settled exactly",
   "Before an EVM transaction runs, its sender is charged exactly the fee converted from the EVM currency into the currency it pays fees in (an override, else the EVM currency); unconvertible, unaffordable or zero converted fees are refused. "
   "Afterwards the excess over the corrected fee, converted at the price charged and rounded up, is returned to the sender in the same currency, and everything else that was taken goes to the treasury once, also when the return fails. "
   "The gas price follows each block the default plus three times the fee multiplier's part of it, scaled by the ETH price over its reference and kept between its bounds, and stays unchanged without a price; conversion uses the price of the target in the source currency, rounded up.",
   ["runtime/hydradx/src/evm/evm_fee.rs", "pallets/dynamic-evm-fee/src/lib.rs", "runtime/adapters/src/price.rs"],
   [("fee handlers", "runtime/hydradx/src/evm/evm_fee.rs"), ("gas price", "pallets/dynamic-evm-fee/src/lib.rs"), ("conversion", "runtime/adapters/src/price.rs")], ("p_evmfee", "fees")),
 P("P32", "Trade fees are recalculated once per block from the asset's own data",
   "An asset's trade fees start at their minima and are recalculated at most once per block, each from its own previous value and parameters, the asset's omnipool volume and liquidity reported by the oracle and the blocks since the last update. "
   "The recalculated fees are returned and stored with the block; in the same block, or when volume or liquidity is unknown, the previous fees are returned and nothing is stored.",
   ["pallets/dynamic-fees/src/lib.rs", "runtime/adapters/src/lib.rs"], [("fee update", "pallets/dynamic-fees/src/lib.rs"), ("volume and liquidity", "runtime/adapters/src/lib.rs")], ("p_dynfees", "fees")),
 P("P33", "Pools report trades, liquidity and fees as they happened",
   "After an Omnipool trade or liquidity change the oracle is told the assets, amounts, resulting reserves and their price, and the circuit breaker is asked about the reserve before and the amount moved, with limits on removed liquidity skipped only for safe withdrawals; after a Stableswap change the oracle is told the same of every pool asset against the share asset. "
   "A fee in the hub asset is not passed on; of any other fee referrals are offered the whole (unless it is native) and staking the rest, and the sum taken is reported. A refusal by the oracle, the circuit breaker, referrals or staking refuses the operation.",
   ["runtime/adapters/src/lib.rs"], [("hooks", "runtime/adapters/src/lib.rs")], ("p_hooks", "hooks")),
 P("P34", "Prices for fees, schedules and farms come from the right oracle data",
   "The price of a route is the product of its hops' prices for the asked period, each from the oracle source of the hop's pool and through the hub or share asset, and is unknown when any hop's price is; a fee currency's price is one for the native asset, else for accepted currencies its route's price to the native asset or the configured fallback, and unknown for any other. "
   "A farm's price adjustment is the ten-minute price of its reward currency, or of a bond's underlying, in the incentivized asset, and locked amounts reported to other pallets are those of the named lock, zero without one.",
   ["runtime/adapters/src/lib.rs"], [("price adapters", "runtime/adapters/src/lib.rs")], ("p_prices", "prices")),
 P("P35", "XCM moves, charges, exchanges and admits exactly what a message asks for",
   "A deposit credits the message's amount of the known currency to the addressed account, or to the reroute destination when the filter says so, and unknown assets go to the unknown-asset holder; a withdrawal or transfer debits exactly that amount from the addressed account and hands over the same asset. "
   "Execution costs price times weight fee in the payment's first asset, at most what was paid is refunded for weight not used, and the rest is revenue; an exchange trades the one asset given for the one wanted within the stated limit and hands over exactly what it burns, or gives everything back. "
   "Users may execute only the listed transfer and swap instructions, including those of nested programs, within the depth and instruction limits.",
   ["runtime/adapters/src/lib.rs", "runtime/adapters/src/xcm_exchange.rs", "runtime/adapters/src/xcm_execute_filter.rs"],
   [("asset transactor and weight trader", "runtime/adapters/src/lib.rs"), ("exchange", "runtime/adapters/src/xcm_exchange.rs"), ("execution filter", "runtime/adapters/src/xcm_execute_filter.rs")], ("p_xcmio", "xcm")),
 P("P36", "Settling an OTC order only takes arbitrage and leaves nothing behind",
   "A settlement mints exactly the given amount of the order's asset in, fills the order with it (wholly unless the order is partially fillable and the amount smaller), sells exactly what was received over the router's own route and burns exactly the amount; "
   "it succeeds only when what is left over reaches the minimum percentage of the order, a partially fillable order's price has come within the precision of the route's, and both balances of the pallet end as they began. "
   "The whole surplus goes to the profit receiver and is reported; unsigned settlements from outside the node and other unsigned calls are refused, and the off-chain search submits only amounts a trial settlement of that order accepted.",
   [L("otc-settlements")], [("settlement", L("otc-settlements")), ("off-chain search", L("otc-settlements"))], ("p_settle", "settlements")),
 P("P37", "What a pool quotes to the router is what the trade then moves",
   "For Omnipool, Stableswap, XYK and LBP pools, the amount a pool quotes for a sale is exactly what the sale executed in the same state gives the trader, and the amount quoted for a purchase exactly what it takes from the trader, fees included; "
   "the trade moves exactly the amount asked for, between the two assets asked for, and within the trader's limit (selling into stableswap shares leaves the limit to the router). "
   "Each pool refuses other kinds of pools, reports its own balance of the first asset as liquidity depth, and prices a pair from the state, weights and fees it trades with, in the direction asked for.",
   ["pallets/omnipool/src/router_execution.rs", "pallets/stableswap/src/trade_execution.rs", "pallets/xyk/src/trade_execution.rs", "pallets/lbp/src/trade_execution.rs"],
   [("quotes", "pallets/omnipool/src/router_execution.rs"), ("quotes", "pallets/stableswap/src/trade_execution.rs")], ("p_quotes", "router_interface")),
 P("P38", "EVM transactions are admitted on the sender's own nonce and WETH balance",
   "Where validation is asked for, an EVM call or creation is checked as given, on this chain, against the block gas limit and the current base fee, and against the nonce of the sender's account and that account's fee-currency balance counted in WETH; if any of these checks fails it is refused and nothing runs. "
   "It then runs once, exactly as asked and without a second validation, and its outcome is returned; WETH is the asset registered at its fixed location.",
   ["runtime/hydradx/src/evm/runner.rs", "runtime/hydradx/src/evm/mod.rs"], [("runner", "runtime/hydradx/src/evm/runner.rs"), ("WETH", "runtime/hydradx/src/evm/mod.rs")], ("p_runner", "evm")),
 P("P39", "Accounts given an insufficient asset pay a deposit, returned when emptied",
   "No banned asset is deposited or transferred; when an account without the asset is given an asset that is not sufficient, the sender of a transfer, or the receiver itself of a deposit or of a transfer from an exempt account, first pays the insufficiency deposit to the treasury in its own fee currency at its price (at least one unit), and otherwise nobody pays. "
   "Each payment raises the treasury's lock by one existential deposit, the receiver's sufficiency count and the number of payments by one, and fails with the operation. "
   "When an account that paid empties such an asset it gets back the lock divided by the number of payments, and lock, count and number fall by exactly that share and by one.",
   ["runtime/hydradx/src/assets.rs"], [("sufficiency hooks", "runtime/hydradx/src/assets.rs")], ("p_sufficient", "sufficiency")),
 P("P40", "A trade is executed by the first pool that supports its kind, unchanged",
   "Quotes, depth, prices and trades asked of the router's list of pools are put to the pools in turn with exactly the trader, kind of pool, assets, amount and limit that were given. "
   "A pool is passed over only when it answers that it does not support the kind; the first other answer, success or failure, is returned as it is and no later pool is asked, and when no pool supports it the request fails.",
   ["traits/src/router.rs"], [("tuple dispatch", "traits/src/router.rs")], ("p_barrier", "routing")),
 P("P41", "Omnipool liquidity moves only near the oracle price",
   "Unless the account is the treasury, the price check guarding omnipool liquidity moves passes exactly when the oracle knows the pair's price and twice the distance between pool price and oracle price is at most the configured share of their sum, and of several such checks all must pass. "
   "A withdrawal counts as safe, and so exempt from the check, only in an asset whose state allows removing liquidity and neither buying nor selling.",
   ["pallets/omnipool/src/traits.rs", "pallets/omnipool/src/types.rs", "runtime/hydradx/src/assets.rs"], [("price barrier", "pallets/omnipool/src/traits.rs"), ("safe withdrawal", "pallets/omnipool/src/types.rs")], ("p_barrier", "barrier")),
 P("P42", "The call filter keeps funds out of the pool account and code off the chain",
   "Transfers of the hub asset, of an asset listed in the Omnipool or of the native token to the Omnipool's account, XYK pools with the hub asset, EVM contract creation, XCM calls other than sending, and paused calls are refused for every signed caller, and every other call is let through; System, Timestamp and ParachainSystem calls cannot be paused. "
   "Another chain can transact a call only if this filter lets it through and it belongs to the listed set, which excludes governance, EVM, multisig, batch, asset registry, staking and the other pools.",
   ["runtime/hydradx/src/system.rs", "runtime/hydradx/src/xcm.rs"], [("call filter", "runtime/hydradx/src/system.rs"), ("XCM transact filter", "runtime/hydradx/src/xcm.rs")], ("p_filters", "filters")),
 P("P43", "A proxy makes only calls of its type and cannot widen it",
   "A proxy of type CancelProxy, Governance, Transfer, Liquidity or LiquidityMining may make exactly the calls listed for its type, an Any proxy every call. "
   "A type includes another only if it is the same or Any, so no restricted proxy can add or act through a wider one.",
   ["runtime/hydradx/src/system.rs"], [("proxy types", "runtime/hydradx/src/system.rs")], ("p_filters", "proxy")),
 P("P44", "Assets and accounts keep their identity across chains",
   "The native asset is named to other chains by this parachain and its index, any other asset by its registered location; a location is taken for the native asset only if it is that one (or its index here), and otherwise for exactly the asset registered at it, or none. "
   "Assets bridged from outside the relay chain's consensus are accepted as reserves only from the configured chain and only if fungible; a local Ethereum-style location belongs to the account bound to its address; deposits are diverted to the treasury exactly when a listed asset is sent to the Omnipool's account.",
   ["runtime/hydradx/src/xcm.rs"], [("location conversions", "runtime/hydradx/src/xcm.rs")], ("p_locations", "locations")),
 P("P45", "Each pool has its own account, found whatever order its assets are named",
   "The account of an XYK or LBP pool is derived from that pool kind's own identifier and its two assets in a fixed order, a stable pool's from its identifier and share asset, a farm's from its non-zero id, so naming a pair in either order finds the same pool and two pools never share an account. "
   "A new XYK pool may be created exactly if both assets are registered, neither is an XYK share token and no liquidity bootstrapping pool of the pair is still open (without an end, or ending at or after the current block).",
   ["runtime/hydradx/src/assets.rs", "runtime/adapters/src/xyk.rs", "pallets/lbp/src/lib.rs", "pallets/xyk/src/lib.rs"], [("AssetPairAccountId", "runtime/hydradx/src/assets.rs"), ("AllowPoolCreation", "runtime/adapters/src/xyk.rs"), ("DisallowWhenLBPPoolRunning", "pallets/lbp/src/lib.rs")], ("p_accounts", "accounts")),
 P("P46", "Referral fees are converted near the market price; tiers only improve",
   "Collected referral fees are converted by selling exactly the given amount for their owner in the Omnipool, only when the amount reaches the trading limit and a price is known, with a limit of at least one unit and at most one percent below that price, and the reported result is the owner's balance gained by the sale. "
   "The shares of every tier add up to the same part of the fee, never more than all of it; higher tiers need more and pay referrer and trader no less; accounts without a referrer are paid nothing.",
   ["runtime/hydradx/src/assets.rs"], [("ConvertViaOmnipool, ReferralsLevelVolumeAndRewards", "runtime/hydradx/src/assets.rs")], ("p_refconv", "referrals")),
 P("P47", "Authority beyond a signature is given only to those the runtime names",
   "A scheduled call may be changed only by the same origin, by root, or by council members with at least its share of yes votes; treasury payouts move the granted amount from the treasury to the beneficiary or fail; only root may grant vested transfers, paid from the vesting account; only Ethereum transactions are executed unsigned, as the account that signed them, after the Ethereum pallet's own checks. "
   "An account is spared dust removal exactly if it is one of the module accounts or on the duster's list, and a pair is admitted to the oracle exactly if either of the two lists has it.",
   ["runtime/hydradx/src/governance.rs", "runtime/hydradx/src/assets.rs", "runtime/hydradx/src/lib.rs"], [("OriginPrivilegeCmp, PayFromTreasuryAccount", "runtime/hydradx/src/governance.rs"), ("SelfContainedCall", "runtime/hydradx/src/lib.rs"), ("RootAsVestingPallet", "runtime/hydradx/src/assets.rs")], ("p_authority", "authority")),
 P("P48", "Privileged calls belong to root or the assigned share of a governing body",
   "No privileged call of a pallet accepts an ordinary account or a smaller share of a body than assigned: registering assets, authority over the Omnipool, stable pools and referrals, vesting, member sets, preimages and blacklisting are root's; updating assets, accepted fee currencies, tradability, limits, routes, DCA, oracle, dusting, pauses, EVM deployers and LBP pools take two thirds of the technical committee or root, creating farms, immediate votes and cancelling proposals all of it, fast tracking and suspending XCM half. "
   "Staking authority, XCM administration, forcing NFT collections and cancelling referenda take two thirds of the council or root, approving treasury spending three fifths, scheduling, external proposals, collator settings, registrars and rejections more than half, a default external proposal all; of the pallets' own origins only issuing bonds and submitting proposals are open to any account.",
   ["runtime/hydradx/src/governance.rs", "runtime/hydradx/src/assets.rs", "runtime/hydradx/src/system.rs"], [("origin aliases", "runtime/hydradx/src/governance.rs"), ("pallet configurations", "runtime/hydradx/src/assets.rs")], ("p_config", "origins")),
 P("P49", "The runtime's parameters fit together",
   "No two pallets share an account id, a lock, a named reserve or a collection of position tokens, every oracle period that is asked for is one the oracle keeps, and liquidity mining and XYK use their own pool's oracle source. "
   "Fee bounds are ordered and the fees decay, fees and per-block limits are fractions with a non-zero denominator, the discounted fee is no higher than the fee, ratios, limits, minimum liquidity and period lengths are positive, the base fee lies between its bounds, and the hub asset is not the native one.",
   ["runtime/hydradx/src/assets.rs", "runtime/hydradx/src/governance.rs", "runtime/hydradx/src/system.rs", "runtime/hydradx/src/evm/mod.rs"], [("parameter_types", "runtime/hydradx/src/assets.rs")], ("p_config", "parameters")),
 P("P50", "NFTs obey their collection's permissions and their owner",
   "A signed account creates a collection only with an unreserved identifier and a type that allows it, mints only in its own collection, moves or burns only its own item and destroys only its own empty collection, each only if the stored type of the collection permits that; users may move items of marketplace and liquidity-mining collections and do everything else in marketplace collections only. "
   "Whoever asks, minting needs a known collection, burning on behalf of a given account needs that account to own the item, the operation concerns exactly the given collection, item and account, and the pallet's record of the item or collection is written when it comes into being and removed when it goes.",
   ["pallets/nft/src/lib.rs", "pallets/nft/src/types.rs"], [("create_collection, mint, transfer, burn, destroy_collection", "pallets/nft/src/lib.rs"), ("NftPermissions", "pallets/nft/src/types.rs")], ("p_nft", "nft")),
 P("P51", "Democracy counts votes and holds their locks as declared",
   "A vote needs no more than the account's balance, which it locks; a standard vote adds the balance times its conviction (a tenth without) to its side, and with the delegations received, a split vote a tenth of each part to each side, the turnout counts balances, and recasting or removing a vote, or moving a delegation, takes out exactly what it had put in and tells the hooks. "
   "After the referendum a winning standard vote, and of a losing one what staking requires, stays locked until its 0 to 32 periods from the end have passed, and until then only its owner may remove it; a referendum passes by its threshold over its tally and the issuance, its proposal runs as root after its delay and no earlier than the next block, and votes are encoded reversibly.",
   ["pallets/democracy/src/lib.rs", "pallets/democracy/src/types.rs", "pallets/democracy/src/vote.rs", "pallets/democracy/src/conviction.rs", "pallets/democracy/src/vote_threshold.rs"], [("try_vote, try_remove_vote, try_delegate, bake_referendum", "pallets/democracy/src/lib.rs"), ("Tally", "pallets/democracy/src/types.rs"), ("Conviction", "pallets/democracy/src/conviction.rs")], ("p_democracy", "democracy")),
 P("P52", "EVM precompiles read and write data by the Ethereum ABI, within bounds",
   "Whatever input a precompile is called with, it takes words, pointers, lengths and bytes only within the input, at the positions the Ethereum ABI gives them, refuses integers too big for their type, and writes words big-endian, bytes padded to whole words with zeros, and pointers as the distance to the data they stand for, behind the selector. "
   "A function that changes state does not run in a static call, one not declared payable takes no value, every allowed call is let through, selectors are the first four bytes, and a log costs 375 gas plus 375 a topic and 8 a byte.",
   ["runtime/hydradx/src/evm/precompiles/handle.rs", "runtime/hydradx/src/evm/precompiles/mod.rs", "runtime/hydradx/src/evm/precompiles/costs.rs", "precompiles/utils/src/solidity/codec/mod.rs", "precompiles/utils/src/solidity/codec/native.rs", "precompiles/utils/src/solidity/codec/bytes.rs", "precompiles/utils/src/solidity/modifier.rs"], [("EvmDataReader, EvmDataWriter, check_function_modifier", "runtime/hydradx/src/evm/precompiles/handle.rs"), ("Reader, Writer", "precompiles/utils/src/solidity/codec/mod.rs"), ("Codec impls", "precompiles/utils/src/solidity/codec/native.rs")], ("p_abi", "abi")),
 P("P53", "Pools, routes and the oracle answer queries from the state they hold",
   "A pair exists exactly if its XYK or LBP pool, or both its Omnipool states, do; its spot price is the ratio of the pool's own reserves, weighted by the current weights in an LBP and by way of the hub asset in the Omnipool, and one for an asset in itself; pool assets, balances, fees, limits and the liquidity behind XYK shares are those of the pool asked about. "
   "A route's price is the product of what its hops' pools answer, and none for an empty route; the oracle's price and age are those of the entry asked for, its whitelist is the stored set, an Omnipool position is loaded only for its owner, only new registered assets are added, and a claim is admitted to the pool and dispatched exactly if its signature check passes.",
   ["pallets/xyk/src/impls.rs", "pallets/xyk/src/lib.rs", "pallets/lbp/src/provider.rs", "pallets/lbp/src/lib.rs", "pallets/omnipool/src/provider.rs", "pallets/omnipool/src/lib.rs", "pallets/ema-oracle/src/lib.rs", "pallets/route-executor/src/lib.rs", "pallets/claims/src/lib.rs"], [("SpotPriceProvider", "pallets/omnipool/src/provider.rs"), ("spot_price_with_fee", "pallets/route-executor/src/lib.rs"), ("ValidateClaim", "pallets/claims/src/lib.rs")], ("p_answers", "answers")),
 P("P54", "Calls are charged for the work they do, routes and hooks included",
   "Every call's weight is at least its own measured weight plus that of the trade and liquidity hooks it runs and of the prices, conversions and trades it asks for, each pallet runs with the weights measured for it, and only claims are free and only emergency democracy calls operational. "
   "A route's weight adds up, over every hop, the router's own part and what the pool of that hop was measured at for the number of quotes and executions made, a direct trade adding the pool's hooks, set_route adding its trial sell, the quotes of the stored route and of the new one both ways, and a DCA execution its scheduling.",
   ["runtime/hydradx/src/assets.rs", "pallets/omnipool/src/lib.rs", "pallets/stableswap/src/lib.rs", "pallets/xyk/src/lib.rs", "pallets/dca/src/lib.rs", "pallets/otc-settlements/src/lib.rs", "pallets/referrals/src/lib.rs", "pallets/claims/src/lib.rs"], [("RouterWeightInfo", "runtime/hydradx/src/assets.rs"), ("pallet::weight", "pallets/omnipool/src/lib.rs"), ("get_trade_weight", "pallets/dca/src/lib.rs")], ("p_weights", "weights")),
 P("P55", "The asset registry answers from its records, and an unknown asset holds nothing",
   "An asset's decimals, type, name, symbol, existential deposit, sufficiency and limit across chains are those of its own record and absent without one; an unknown asset is not sufficient and has the largest possible existential deposit, so that no balance of it can be kept. "
   "An asset exists or is banned exactly if it is stored as such, a location and its asset are looked up in the table for that direction, the next identifier is the counter added to the first sequential one, and the oracle follows a pair only if both its assets are sufficient.",
   ["pallets/asset-registry/src/lib.rs"], [("Inspect", "pallets/asset-registry/src/lib.rs"), ("OracleWhitelist", "pallets/asset-registry/src/lib.rs"), ("XcmRateLimitsInRegistry", "pallets/asset-registry/src/lib.rs")], ("p_answers", "lookups")),
 P("P56", "Democracy tables waiting proposals in turn and gives their deposits back",
   "Every launch period, and at no other time, one waiting proposal is tabled: a public one if the last was external, else the external one, each only in default of the other; of the public ones the best backed by its seconders' deposits is taken out of the queue, and each of them gets the deposit back, once. "
   "What is tabled becomes the next referendum, with its own proposal and threshold (a super-majority of approval for a public one) and metadata, an empty tally, ending after the voting period and enacted after the enactment period.",
   ["pallets/democracy/src/lib.rs"], [("launch_next", "pallets/democracy/src/lib.rs"), ("launch_public", "pallets/democracy/src/lib.rs"), ("inject_referendum", "pallets/democracy/src/lib.rs")], ("p_tabling", "tabling")),
 P("P57", "Adapters and shared oracle records pass on exactly what they are given",
   "A question about an asset's issuance, balances, deposits and withdrawals goes with its own arguments to the native ledger for the native asset and to the ledger of all others otherwise, and registering an asset as sufficient or insufficient registers every detail as given and that sufficiency. "
   "Trade volumes, liquidity and oracle entries made of, turned around, added up or taken apart keep every amount on its side of the pair, and the duster spares exactly the accounts that were added and not removed.",
   ["runtime/adapters/src/inspect.rs", "traits/src/registry.rs", "traits/src/oracle.rs", "pallets/duster/src/lib.rs"], [("MultiInspectAdapter", "runtime/adapters/src/inspect.rs"), ("register_sufficient_asset", "traits/src/registry.rs"), ("Volume", "traits/src/oracle.rs")], ("p_adapters", "adapters")),
]
