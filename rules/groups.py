"""Which function specifications decide which property."""
GROUPS = {
    "m_xyk": ("m_xyk", None),
    "m_omnipool": ("m_omnipool", {"calculate_sell_state_changes", "calculate_sell_hub_state_changes", "calculate_fee_amount_for_buy",
                                  "calculate_buy_for_hub_asset_state_changes", "calculate_buy_state_changes", "calculate_spot_price", "calculate_lrna_spot_price"}),
    "m_omnipool_liq": ("m_omnipool", {"calculate_add_liquidity_state_changes", "calculate_remove_liquidity_state_changes", "calculate_tvl",
                                      "calculate_delta_imbalance", "calculate_cap_difference", "calculate_tvl_cap_difference", "verify_asset_cap"}),
    "m_omnipool_state": ("m_omnipool", lambda q: "omnipool::types::" in q or q.endswith("calculate_withdrawal_fee")),
    "m_stableswap_trade": ("m_stableswap", {"calculate_d_internal", "calculate_y_internal", "calculate_out_given_in", "calculate_in_given_out",
                                            "calculate_out_given_in_with_fee", "calculate_in_given_out_with_fee", "calculate_d", "normalize_value"}),
    "m_stableswap_liq": ("m_stableswap", {"calculate_shares", "calculate_amplification", "calculate_shares_for_amount", "calculate_withdraw_one_asset",
                                          "calculate_add_one_asset", "calculate_share_price", "calculate_share_prices", "stableswap::math::calculate_spot_price", "calculate_spot_price_between_two_stable_assets"}),
    "m_lbp": ("m_lbp", None),
    "m_fees": ("m_fees", {"recalculate_asset_fee", "recalculate_protocol_fee"}),
    "m_flatfee": ("m_fees", {"calculate_pool_trade_fee"}),
    "m_mining": ("m_farms", {"calculate_loyalty_multiplier", "calculate_reward", "calculate_valued_shares", "calculate_global_farm_shares",
                             "calculate_yield_farm_rewards", "calculate_user_reward", "calculate_global_farm_rewards", "mining::calculate_accumulated_rps"}),
    "m_staking": ("m_farms", {"calculate_slashed_points", "calculate_period_number", "calculate_points", "sigmoid", "calculate_rewards",
                              "calculate_percentage_amount", "calculate_total_rewards", "staking::calculate_accumulated_rps"}),
    "m_rate": ("m_farms", {"calculate_deferred_duration", "decay_accumulated_amount", "calculate_new_accumulated_amount"}),
    "m_subpools": ("m_farms", {"recalculate_protocol_shares", "convert_position", "create_subpool_initial_state", "calculate_asset_migration_details"}),
    "m_ema": ("m_numbers", lambda q: "math::ema::" in q),
    "m_numbers": ("m_numbers", lambda q: "math::ema::" not in q),
    "m_powers": ("m_powers", None),
}
