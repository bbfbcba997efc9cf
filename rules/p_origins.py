"""Who may call what: every effect of a dispatchable is dominated by the origin check its documentation promises."""
from rules.plib import *

S = "signed"
TABLE = {
    "asset-registry": {"register": "RegistryOrigin", "update": ("UpdateOrigin", "RegistryOrigin"), "register_external": S, "ban_asset": "UpdateOrigin", "unban_asset": "UpdateOrigin"},
    "bonds": {"issue": "IssueOrigin", "redeem": S},
    "circuit-breaker": {"set_trade_volume_limit": "TechnicalOrigin", "set_add_liquidity_limit": "TechnicalOrigin", "set_remove_liquidity_limit": "TechnicalOrigin"},
    "claims": {"claim": S},
    "currencies": {"transfer": S, "transfer_native_currency": S, "update_balance": "root"},
    "dca": {"schedule": S, "terminate": (S, "TechnicalOrigin")},
    "democracy": {"propose": "SubmitOrigin", "second": S, "vote": S, "emergency_cancel": "CancellationOrigin", "external_propose": "ExternalOrigin",
                  "external_propose_majority": "ExternalMajorityOrigin", "external_propose_default": "ExternalDefaultOrigin", "fast_track": ("FastTrackOrigin", "InstantOrigin"),
                  "veto_external": "VetoOrigin", "cancel_referendum": "root", "delegate": S, "undelegate": S, "clear_public_proposals": "root", "unlock": S, "remove_vote": S,
                  "remove_other_vote": S, "blacklist": "BlacklistOrigin", "cancel_proposal": "CancelProposalOrigin", "set_metadata": None},
    "duster": {"dust_account": S, "add_nondustable_account": "BlacklistUpdateOrigin", "remove_nondustable_account": "BlacklistUpdateOrigin"},
    "ema-oracle": {"add_oracle": "AuthorityOrigin", "remove_oracle": "AuthorityOrigin"},
    "evm-accounts": {"bind_evm_address": S, "add_contract_deployer": "ControllerOrigin", "remove_contract_deployer": "ControllerOrigin", "renounce_contract_deployer": S},
    "lbp": {"create_pool": "CreatePoolOrigin", "*": S},
    "nft": {"*": S},
    "omnipool-liquidity-mining": {"create_global_farm": "CreateOrigin", "*": S},
    "xyk-liquidity-mining": {"create_global_farm": "CreateOrigin", "*": S},
    "omnipool": {"add_token": "AuthorityOrigin", "refund_refused_asset": "AuthorityOrigin", "withdraw_protocol_liquidity": "AuthorityOrigin", "remove_token": "AuthorityOrigin",
                 "set_asset_tradable_state": "TechnicalOrigin", "set_asset_weight_cap": "TechnicalOrigin", "*": S},
    "otc": {"*": S},
    "otc-settlements": {"settle_otc_order": ("none", S, None)},
    "referrals": {"set_reward_percentage": "AuthorityOrigin", "*": S},
    "route-executor": {"force_insert_route": "TechnicalOrigin", "*": S},
    "stableswap": {"create_pool": "AuthorityOrigin", "update_pool_fee": "AuthorityOrigin", "update_amplification": "AuthorityOrigin", "set_asset_tradable_state": "AuthorityOrigin", "*": S},
    "staking": {"initialize_staking": "AuthorityOrigin", "*": S},
    "transaction-multi-payment": {"set_currency": S, "add_currency": "AcceptedCurrencyOrigin", "remove_currency": "AcceptedCurrencyOrigin", "reset_payment_currency": "AcceptedCurrencyOrigin",
                                  "dispatch_permit": "none"},
    "transaction-pause": {"pause_transaction": "UpdateOrigin", "unpause_transaction": "UpdateOrigin"},
    "xyk": {"*": S},
}
OPAQUE = {"set_route": ("validate_sell", "validate_route", "calculate_expected_amount_out")}
RULE = ("Every dispatchable of every pallet is evaluated path by path over its parsed source with storage, Config calls and events as effects; on every path that ends in success, "
        "each storage write, external call and event must be dominated by the origin check the specification table names for that dispatchable (any origin check for dispatchables not in the table).")


def run(pid, tier):
    ctx = Ctx(pid, tier)
    import os
    from vt.front import REPO
    names = sorted(set(TABLE) | {d for d in os.listdir(os.path.join(REPO, "pallets")) if os.path.isdir(os.path.join(REPO, "pallets", d, "src"))})
    for pn in names:
        one(ctx, pn)
    return ctx.done(RULE)


@guarded
def one(ctx, pn):
    try:
        p = ctx.pallet(pn)
    except KeyError:
        return
    tab = TABLE.get(pn, {})
    for name in list(p.calls):
        r = ctx.fn(pn, name, opaque=OPAQUE[name]) if name in OPAQUE else ctx.fn(pn, name)
        if r is None:
            continue
        if name in tab:
            want = tab[name]
        elif "*" in tab:
            # a dispatchable that the table does not name: the pallet's usual origin, or any privileged one
            want = None
        else:
            want = None
        if "*" in tab and name not in tab and name in KNOWN.get(pn, ()):
            want = tab["*"]
        wants = want if isinstance(want, tuple) else (want,)
        origin = r.runs.fn.params[0][0]
        onode = mk("var", origin[1] if origin[0] == "pid" else "arg0")
        for q in r.paths:
            acts = q.acts()
            if not acts:
                continue
            if None in wants and len(wants) > 1:
                continue
            got = {f.args[0] for f, pol in q.facts if f.op == "origin" and pol and has(f.args[1], onode)}
            first = acts[0]
            at = {f.args[0] for f, pol in (first.facts or ()) if f.op == "origin" and pol and has(f.args[1], onode)}
            ok = bool(at) if wants == (None,) else bool(at & set(wants))
            txt = " or ".join(str(w) for w in wants if w) or "any origin check"
            ctx.judge(r, q, "origin", ok, f"{first!r} happens under {sorted(at) or 'no origin check'}, not {txt}"[:300], relevant=(onode,), eff=first, key=f"origin|{pn}|{name}")


# dispatchables of the pallets whose table has a default
KNOWN = {
    "lbp": ("update_pool_data", "add_liquidity", "remove_liquidity", "sell", "buy"),
    "nft": ("create_collection", "mint", "transfer", "burn", "destroy_collection"),
    "omnipool-liquidity-mining": ("terminate_global_farm", "create_yield_farm", "update_yield_farm", "stop_yield_farm", "resume_yield_farm", "terminate_yield_farm", "deposit_shares", "redeposit_shares",
                                  "claim_rewards", "withdraw_shares", "update_global_farm", "join_farms", "add_liquidity_and_join_farms", "exit_farms", "remove_liquidity_and_exit_farms"),
    "xyk-liquidity-mining": ("update_global_farm", "terminate_global_farm", "create_yield_farm", "update_yield_farm", "stop_yield_farm", "resume_yield_farm", "terminate_yield_farm", "deposit_shares",
                             "redeposit_shares", "claim_rewards", "withdraw_shares"),
    "omnipool": ("add_liquidity", "remove_liquidity", "sacrifice_position", "sell", "buy", "add_liquidity_with_limit", "remove_liquidity_with_limit"),
    "otc": ("place_order", "partial_fill_order", "fill_order", "cancel_order"),
    "referrals": ("register_code", "link_code", "convert", "claim_rewards"),
    "route-executor": ("sell", "buy", "set_route"),
    "stableswap": ("add_liquidity", "add_liquidity_shares", "remove_liquidity_one_asset", "withdraw_asset_amount", "sell", "buy", "remove_liquidity"),
    "staking": ("stake", "increase_stake", "claim", "unstake"),
    "xyk": ("create_pool", "add_liquidity", "remove_liquidity", "sell", "buy", "add_liquidity_with_limits", "create_pool_with_ids"),
}
