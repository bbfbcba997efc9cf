# generated by dev/gen.py
CHECKS = {
    'M01': ('common', ['m_xyk']),
    'M02': ('common', ['m_omnipool']),
    'M03': ('common', ['m_omnipool_liq', 'm_omnipool_state']),
    'M04': ('common', ['m_stableswap_trade']),
    'M05': ('common', ['m_stableswap_liq']),
    'M06': ('common', ['m_lbp']),
    'M07': ('common', ['m_ema']),
    'M08': ('common', ['m_fees']),
    'M09': ('common', ['m_flatfee']),
    'M10': ('common', ['m_mining']),
    'M11': ('common', ['m_staking']),
    'M12': ('common', ['m_rate']),
    'M13': ('common', ['m_subpools']),
    'M14': ('common', ['m_numbers']),
    'M15': ('m_panics', 'run'),
    'M16': ('common', ['m_powers']),
    'M17': ('m_consts', 'run'),
    'M18': ('m_evmsel', 'run'),
    'M19': ('m_signed', 'signed'),
    'P01': ('p_origins', 'run'),
    'P02': ('p_trades', 'limits'),
    'P03': ('p_trades', 'formulas'),
    'P04': ('p_omnipool', 'accounting'),
    'P05': ('p_omnipool', 'imbalances'),
    'P06': ('p_liquidity', 'limits'),
    'P07': ('p_liquidity', 'formulas'),
    'P08': ('p_tradeguards', 'guards'),
    'P09': ('p_tradeguards', 'observers'),
    'P10': ('p_market', 'otc'),
    'P11': ('p_market', 'bonds'),
    'P12': ('p_small', 'evm'),
    'P13': ('p_small', 'claims'),
    'P14': ('p_small', 'duster'),
    'P15': ('p_small', 'tx_pause'),
    'P16': ('p_small', 'xcm_limit'),
    'P17': ('p_small', 'collator_rewards'),
    'P18': ('p_protect', 'breaker'),
    'P19': ('p_oracle', 'oracle'),
    'P20': ('p_router', 'router'),
    'P21': ('p_dca', 'dca'),
    'P22': ('p_staking', 'staking'),
    'P23': ('p_farms', 'farms'),
    'P24': ('p_lmcalls', 'calls'),
    'P25': ('p_referrals', 'referrals'),
    'P26': ('p_registry', 'registry'),
    'P27': ('p_currencies', 'currencies'),
    'P28': ('p_payment', 'payment'),
    'P29': ('p_permit', 'permit'),
    'P30': ('p_erc20', 'erc20'),
    'P31': ('p_evmfee', 'fees'),
    'P32': ('p_dynfees', 'fees'),
    'P33': ('p_hooks', 'hooks'),
    'P34': ('p_prices', 'prices'),
    'P35': ('p_xcmio', 'xcm'),
    'P36': ('p_settle', 'settlements'),
    'P37': ('p_quotes', 'router_interface'),
    'P38': ('p_runner', 'evm'),
    'P39': ('p_sufficient', 'sufficiency'),
    'P40': ('p_barrier', 'routing'),
    'P41': ('p_barrier', 'barrier'),
    'P42': ('p_filters', 'filters'),
    'P43': ('p_filters', 'proxy'),
    'P44': ('p_locations', 'locations'),
    'P45': ('p_accounts', 'accounts'),
    'P46': ('p_refconv', 'referrals'),
    'P47': ('p_authority', 'authority'),
    'P48': ('p_config', 'origins'),
    'P49': ('p_config', 'parameters'),
    'P50': ('p_nft', 'nft'),
    'P51': ('p_democracy', 'democracy'),
    'P52': ('p_abi', 'abi'),
    'P53': ('p_answers', 'answers'),
    'P54': ('p_weights', 'weights'),
    'P55': ('p_answers', 'lookups'),
    'P56': ('p_tabling', 'tabling'),
    'P57': ('p_adapters', 'adapters'),
}
