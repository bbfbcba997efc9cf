"""Property texts and check entries (generates properties.jsonl and MANIFEST.json through dev/gen.py)."""
TECH = "abstract interpretation of the parsed source into a rational-function normal form with directed rounding"
NOTE = ("Every exit path of the named functions is evaluated symbolically from /repo's source and compared with the specified formula, rounding "
        "direction, accuracy and guards; what the evaluator cannot model is left undecided and never reported.")
ALLIN = "every reserve, amount, fee and share value representable in the argument types"
TESTS = "The tests fix a handful of values (some property tests sample a range); rounding direction and the guard boundaries hold for every input or not at all"


def P(i, title, st, text, files, mech, why=None, over=("inputs",), tech=TECH, note=NOTE, level="other", mods=None, observe=None, run=None):
    return dict(id=i, title=title, statement=st, text=text, files=files, mech=mech, why=why or TESTS + ".", over=list(over), tech=tech, note=note,
                level=level, mods=mods, observe=observe, run=run)


PROPS = [
 P("M01", "Constant-product formulas never favour the trader or the liquidity provider",
   "For a constant-product pool the amount paid out is the exact curve value rounded down, the amount charged is the exact curve value rounded up, and a request for the whole reserve or more is refused. "
   "Liquidity demanded is proportional and rounded up; liquidity returned, pool shares minted and the plain spot price are proportional and rounded down. "
   "The spot price with fee equals the reserve ratio times one minus the fee.",
   ALLIN, ["math/src/xyk/math.rs"], [("constant-product amounts", "math/src/xyk/math.rs"), ("rounding helper", "math/src/support/mod.rs")], mods=["m_xyk"]),
 P("M02", "Omnipool trades follow the two-leg hub curve, rounded in the pool's favour",
   "Selling, buying and trading the hub asset move each side along its own constant-product leg: amounts leaving the pool are rounded down, amounts charged are rounded up, the asset fee is taken from the output, and the protocol fee is the stated fraction of the hub amount leaving the sold asset. "
   "The protocol fee first pays off the imbalance and only the remainder becomes the hub amount to redistribute. "
   "Spot prices are the product of the two leg prices and the fee factors.",
   ALLIN, ["math/src/omnipool/math.rs", "math/src/omnipool/types.rs"], [("trade state changes", "math/src/omnipool/math.rs")], mods=["m_omnipool"]),
 P("M03", "Omnipool liquidity moves keep the asset price and round against the provider",
   "Adding liquidity changes hub reserve and shares in proportion to the amount added, rounded down; removing it returns reserve and hub asset in proportion to the shares burned, less the withdrawal fee, rounded down, and never more position value than the position holds. "
   "When the price fell since entry the provider forfeits the prescribed part of the shares to the protocol, and when it rose receives the prescribed hub amount. "
   "Imbalance changes, total value and cap headroom are the stated proportions of the current state; the withdrawal fee is the relative gap between spot and oracle price kept between the minimum and one, and signed balance updates add, merge and apply to the state exactly.",
   ALLIN, ["math/src/omnipool/math.rs", "math/src/omnipool/types.rs"], [("liquidity state changes", "math/src/omnipool/math.rs"), ("caps", "math/src/omnipool/math.rs")], mods=["m_omnipool_liq", "m_omnipool_state"]),
 P("M04", "Stableswap invariant and trades: right fixed point, rounded for the pool",
   "The stable-pool invariant and the unknown reserve are obtained by iterating the published update rule from the published start until successive values differ by at most one, with the result biased upwards. "
   "The amount received in a trade is the change of the normalised reserve rounded down less one unit, the amount charged is that change rounded up plus one unit, and the trade fee reduces the first and increases the second. "
   "Normalising a balance to other decimals scales by the power of ten and rounds the way the caller asked; any two distinct assets of a pool can be traded.",
   ALLIN, ["math/src/stableswap/math.rs"], [("iterations and trades", "math/src/stableswap/math.rs")], mods=["m_stableswap_trade"]),
 P("M05", "Stableswap liquidity, share price and amplification follow their formulas",
   "Shares minted for added liquidity, shares burned for a withdrawn amount and the single-asset amounts exchanged for shares follow the invariant ratio after the imbalance fee, minted shares and payouts rounded down and burned shares and deposits rounded up, and never against more shares than exist. "
   "A pool's amplification moves linearly between its two values over the configured block range and stays at the end values outside it. "
   "The share price and the price between two pool assets equal the derivative of the invariant; pools of two or more assets are all served.",
   ALLIN, ["math/src/stableswap/math.rs"], [("liquidity and prices", "math/src/stableswap/math.rs")], mods=["m_stableswap_liq"]),
 P("M06", "Weighted-pool trades and weights follow their formulas",
   "In a weighted bootstrapping pool the amount received is the reserve times one minus the ratio power, rounded down with the ratio rounded up; the amount charged is the reserve times the power minus one, rounded up, and is refused when more than the reserve is asked for. "
   "Weights move linearly over the configured block range and a block outside the range is refused. "
   "Spot prices are the weighted reserve ratio times the fee factor where the fee applies.",
   ALLIN, ["math/src/lbp/lbp.rs"], [("weighted-pool formulas", "math/src/lbp/lbp.rs")], mods=["m_lbp"]),
 P("M08", "Dynamic fees move with net volume, decay, and stay within their bounds",
   "A recalculated fee is the previous fee, decayed for every skipped block but never below the minimum, plus amplification times the net volume over liquidity, less one decay, clamped to the configured minimum and maximum. "
   "The asset fee rises with net outflow and the protocol fee with net inflow. With no liquidity the volume term is zero.",
   "every volume, liquidity, previous fee and parameter set with minimum not above maximum", ["math/src/dynamic_fees/math.rs", "math/src/dynamic_fees/types.rs"],
   [("fee recalculation", "math/src/dynamic_fees/math.rs")], mods=["m_fees"]),
 P("M09", "Flat pool trade fees are the stated fraction, rounded down",
   "The fee of a trade with a fee given as numerator and denominator is the amount times that fraction rounded down in the documented steps, and zero when the denominator is zero; it never exceeds the exact fraction.",
   ALLIN, ["math/src/fee.rs"], [("trade fee", "math/src/fee.rs")], mods=["m_flatfee"]),
 P("M10", "Farm rewards are shared in proportion and never over-paid",
   "Accumulated rewards per share, valued shares, farm shares, yield-farm rewards and user rewards follow their formulas and are rounded down, so that what is paid never exceeds the accumulated amount. "
   "A user's reward is the accrued reward times the loyalty factor less what was already claimed, the rest being unclaimable; a farm never pays more per period than its configured maximum. "
   "Rewards are refused when reward per share would decrease.",
   ALLIN, ["math/src/liquidity_mining/liquidity_mining.rs"], [("farm formulas", "math/src/liquidity_mining/liquidity_mining.rs")], mods=["m_mining"]),
 P("M11", "Staking rewards, points and slashing follow their formulas",
   "Rewards per stake, claimable percentages and period numbers are proportional and rounded down; points are the weighted sum of periods and actions less the slashed points. "
   "Slashed points grow with the added stake relative to the existing one, are at least the minimum slash and never more than the points held. "
   "The payable fraction is a sigmoid of the points.",
   ALLIN, ["math/src/staking/math.rs"], [("staking formulas", "math/src/staking/math.rs")], mods=["m_staking"]),
 P("M12", "Rate-limit accounting decays linearly and defers in proportion to the excess",
   "The accumulated amount decays by the limit times elapsed blocks over the duration and never below zero, then grows by the incoming amount. "
   "The deferral is the duration times the excess over the limit divided by the limit, and zero while the limit is not exceeded. "
   "A zero duration or limit counts as one and results saturate instead of wrapping.",
   "every duration, limit, amount and block distance", ["math/src/rate_limiter/math.rs"], [("rate limiter", "math/src/rate_limiter/math.rs")], mods=["m_rate"]),
 P("M13", "Sub-pool migration preserves proportions of value and shares",
   "When an asset moves into a sub-pool its hub reserve moves unchanged, share tokens and shares are issued in proportion to hub reserves rounded down, and protocol shares are converted with the same ratio. "
   "A position converted afterwards keeps its proportion of shares and amount, rounded down, and its price is scaled by the migration price.",
   ALLIN, ["math/src/omnipool_subpools/math.rs"], [("migration", "math/src/omnipool_subpools/math.rs")], mods=["m_subpools"]),
 P("M07", "Moving averages are weighted averages with complementary smoothing",
   "The smoothing factor for a period of n blocks is two over n plus one, and a gap of k blocks compounds it as one minus its complement to the power k. "
   "Each average moves from the previous value toward the incoming one by exactly the smoothing fraction of their difference: price, balance, volume and liquidity averages alike, so the result stays between the two. "
   "Narrowing a wide price for storage keeps both parts within 128 bits, never zeroes a nonzero part, and biases the price the way the caller asked.",
   "every previous value, incoming value, smoothing factor and block gap", ["math/src/ema/math.rs", "math/src/support/rational.rs"],
   [("moving averages", "math/src/ema/math.rs"), ("narrowing", "math/src/support/rational.rs")], mods=["m_ema"]),
 P("M14", "Fractions, ratios and wide rationals mean what their arithmetic says",
   "Building a fraction, converting it to and from fixed point and multiplying by it give the mathematical value to the last representable digit. "
   "Ratios compare by cross-multiplication with a zero denominator as infinity, invert exactly (zero stays zero), and recognise zero and one. "
   "Narrowing a wide rational to 128 bits shifts both parts alike, keeps nonzero parts nonzero and biases the value in the requested direction.",
   "every numerator, denominator and rounding direction", ["math/src/fraction.rs", "math/src/ratio.rs", "math/src/support/rational.rs"],
   [("fractions", "math/src/fraction.rs"), ("ratios", "math/src/ratio.rs"), ("narrowing", "math/src/support/rational.rs")], mods=["m_numbers"]),
 P("M15", "Math functions return errors; they never panic, wrap or divide by zero",
   "For every argument, the public functions of the math crate either return a value or report failure (an error, none, or the documented saturation). "
   "No path subtracts a larger value from a smaller one unchecked, overflows an unchecked addition, multiplication, exponent or conversion, divides by zero, indexes out of bounds, or unwraps a value that may be missing.",
   "every argument value of every public function of the math crate", ["math/src/xyk/math.rs", "math/src/omnipool/math.rs", "math/src/stableswap/math.rs", "math/src/lbp/lbp.rs",
   "math/src/transcendental.rs", "math/src/rate_limiter/math.rs", "math/src/staking/math.rs", "math/src/liquidity_mining/liquidity_mining.rs", "math/src/ema/math.rs"],
   [("unchecked operations", "math/src")], run=("m_panics", "run"), tech="abstract interpretation of the parsed source with interval, order and linear (Farkas) path facts per arithmetic obligation",
   note="Every unchecked operation on every evaluated path is an obligation, proved from path facts or, when certainly violated for some argument, reported; the rest is counted undecided (listed in the evidence).",
   why="A test executes one value per run; a panic or wrap needs one particular boundary value, and release builds wrap silently."),
 P("M16", "Logarithm, exponential and powers are correct, also below one and at the edges",
   "The base-two and natural logarithm of a number below one is the negated logarithm of its inverse, zero is refused, and a result that does not fit is an error. "
   "A power with exponent zero is one, with exponent one the operand, of zero is zero, and otherwise the exponential of exponent times logarithm or the repeated product. "
   "The exponential sums its series with each term the previous one times the operand over its index, inverted for negative operands.",
   "every operand and exponent", ["math/src/transcendental.rs"], [("transcendental functions", "math/src/transcendental.rs")], mods=["m_powers"]),
 P("M17", "Unit constants of tokens and time keep their relations",
   "One token has 12 decimals, DOLLARS is a hundred of them, CENTS and MILLICENTS are a hundredth and a hundred-thousandth of a dollar, and the deposit formula charges two dollars per item and thirty millicents per byte. "
   "Blocks take twelve seconds: minutes, hours, days and epochs count blocks accordingly and the unix-time units count milliseconds. "
   "The native asset has id zero and the oracle sources have distinct names.",
   "every constant of the primitives crate and every pair of deposit arguments", ["primitives/src/constants.rs"], [("constants", "primitives/src/constants.rs")], run=("m_consts", "run"),
   tech="constant folding over the parsed source and symbolic evaluation of the deposit formula", note="Constants reachable only through foreign crates are undecided.",
   why="Tests use the constants symbolically, so a wrong unit scales both sides alike."),
 P("M18", "EVM selectors and typed-data hashes follow the Ethereum ABI",
   "A function selector is the first four bytes, read big-endian, of the Keccak-256 hash of exactly the signature text. "
   "The multi-currency precompile answers to the nine ERC-20 signatures under their own actions. "
   "The call-permit and domain type hashes are taken of the documented EIP-712 type strings.",
   "every signature text and every selector the macros generate", ["runtime/hydradx/src/evm/evm-utility/src/lib.rs", "runtime/hydradx/src/evm/precompiles/multicurrency.rs", "precompiles/call-permit/src/lib.rs", "precompiles/utils/macro/src/precompile/parse.rs"],
   [("selector helper", "runtime/hydradx/src/evm/evm-utility/src/lib.rs"), ("selector macro", "precompiles/utils/macro/src/precompile/parse.rs")], run=("m_evmsel", "run"),
   tech="symbolic evaluation of the hashing helpers and proc-macro code with Keccak-256 uninterpreted, plus a table check of signature texts", note="The hash function itself is trusted.",
   why="A test compares a handful of selectors; the macros must be right for every signature."),
 P("M19", "Signed balance changes add like integers",
   "Adding two signed balance changes gives the integer sum of the signed amounts, with the sign of the larger one, and is refused only when the sum does not fit. "
   "Applying a change to an amount adds or subtracts it and never takes more than is there; the default change is zero and the magnitude is the amount itself. "
   "An omnipool asset state after a change has every component moved by its own delta, and its price is hub reserve over reserve.",
   "every pair of changes, of every sign and size", ["math/src/omnipool/types.rs"],
   [("signed balance changes", "math/src/omnipool/types.rs")], run=("m_signed", "signed"),
   tech="symbolic evaluation of every path per combination of signs; linear arithmetic on the results", note="",
   why="A test samples pairs; the sum must be right for every pair and refused only when it does not fit."),
]
