import json
C="contracts/oraiswap-v3/src/"
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[] if state=="-" else [dict(name=n.strip(),meaning="contract state",where=files[0]) for n in state.split(",")],mechanism=[dict(name=mech,where=f) for f in files[:2]],observe_at=[obs],hook_needed=hook)))
p("A01","Fixed-point arithmetic is exact floor or exact ceiling, or fails",
"Every fixed-point operation (add, subtract, multiply, divide, their rounding-up and wide-intermediate variants, scale conversions) on token amounts, prices, liquidity, percentages and fee growth returns exactly the floor, or for the rounding-up variants exactly the ceiling, of the true rational result. When that result does not fit the type, or the divisor is zero, the operation fails instead of returning a wrapped or truncated number.",
["inputs"],"for all operand values of all seven fixed-point types and all supported type pairs","operands range over 2^64..2^128 values per argument; tests sample a few dozen",
["packages/decimal-core/src","packages/decimal/src",C+"math/types"],"-","generated operator impls over u64/u128/U256/U320","return value or failure of each operation")
p("A02","Ticks and square-root prices convert consistently over the whole range",
"The price assigned to a tick is strictly increasing in the tick over the whole supported range and its extremes are the published minimum and maximum prices. For every price in range and every tick spacing from 1 to 100, the tick computed from the price is the greatest multiple of the spacing whose price does not exceed it.",
["inputs"],"for all ticks in [-221818, 221818], all prices between the published minimum and maximum (about 6.5e28 values), all spacings 1..100","about 6.5e28 prices; the logarithm is an approximation whose correctness at every boundary depends on magic constants",
[C+"math/types/sqrt_price.rs",C+"math/log.rs",C+"math/consts.rs"],"-","bitwise multiplication table and iterative log2","returned tick / price")
p("A03","Liquidity-to-token conversion rounds in the pool's favour",
"The token amounts charged when liquidity is added are rounded up, and those paid when the same liquidity is removed at the same pool price are rounded down, so adding and then removing liquidity never returns more of either token than was charged. Only token x is involved when the price is below the range, only token y when it is above it, and both when it is inside.",
["inputs"],"for all prices, ranges and liquidity values","continuous domain of three 128-bit inputs; an off-by-one in rounding shows only at special values",
[C+"math/clamm.rs",C+"math/types/sqrt_price.rs",C+"storage/pool.rs"],"pool price, current tick","amount deltas for a range","amounts returned by position creation and removal")
p("A04","A swap step never overshoots its limits and never underpays the pool",
"In one swap step the price moves only in the swap direction and never past the step's target price; with an exact input, input plus fee never exceeds the remaining amount, and with an exact output, the output never exceeds it. The input taken is at least what moving the price that far costs (rounded up), the output given at most what it frees (rounded down), and the fee is at least the fee rate times the input taken.",
["inputs"],"for all prices, targets, liquidity, amounts and fee rates","six-dimensional numeric domain with directional rounding",
[C+"math/clamm.rs"],"-","compute swap step and next-price formulas","step result")
p("A05","A completed swap honours amount, price limit and direction exactly",
"A swap that succeeds with an exact input charges exactly that input, and one with an exact output delivers at most that output; the totals are the sums over its steps, the output is never zero, and the final price lies between the starting price and the caller's price limit. A swap that would have to go beyond the limit or the last tick, has a zero amount, or a limit on the wrong side of the price fails as a whole.",
["inputs","histories"],"for all pools, tick layouts, amounts, limits and directions, over any number of crossed ticks","the number of loop iterations and tick layouts is unbounded",
[C+"entrypoints/common.rs",C+"storage/pool.rs"],"pool, ticks, bitmap","swap loop","swap result / error")
p("A06","A quote predicts exactly what the swap will do and changes nothing",
"Quoting a single swap in a given state at a given time returns the same amounts, final price and crossed ticks that executing it in that state would produce, and fails exactly when executing the calculation would fail; a quoted route that visits each pool at most once predicts the executed route's output. A quote writes nothing. Executing a swap changes nothing in storage but that pool and the ticks it crossed.",
["inputs","histories"],"for all reachable states and swap requests","quantifies over all states and requests",
[C+"entrypoints/common.rs",C+"entrypoints/query.rs",C+"entrypoints/execute.rs"],"pools, ticks","shared swap calculation, write-back","quote response versus swap effects")
p("A07","Collected fees are split without loss or duplication",
"Of every fee collected, the protocol share is the protocol rate rounded up and all the rest is credited to the liquidity active at that moment; no amount is credited twice, and a position can never claim more than its proportional share (rounded down) of the credited fees. Withdrawing the protocol fee pays exactly the accumulated amounts and resets them to zero.",
["inputs","histories"],"for all fees, rates, liquidity values and partitions of liquidity into positions","sum over an arbitrary number of positions and fee events",
[C+"storage/pool.rs",C+"math/types/fee_growth.rs",C+"storage/position.rs",C+"entrypoints/execute.rs"],"pool fee growth, protocol fee counters","fee growth accumulators","growth, owed tokens, withdrawals")
p("A08","Fees are attributed only to positions whose range is active",
"The fee growth a position sees inside its range increases by exactly the growth collected while the current tick is inside the range and does not change while it is outside, no matter in which order ticks are crossed, created, or when the accumulators wrap around.",
["histories","inputs"],"for all sequences of fee events and tick crossings, including wrap-around","property of arbitrary histories of crossings and of modular arithmetic",
[C+"math/types/fee_growth.rs",C+"storage/tick.rs",C+"storage/pool.rs",C+"storage/position.rs"],"fee growth outside of ticks, global growth","outside-growth flipping on crossing","fee growth inside a position")
p("A09","Active liquidity equals the sum of the positions in range",
"At every moment a pool's active liquidity is the sum of the liquidity of the positions whose range contains the current tick, and each tick records exactly the gross and net liquidity of the positions bounded by it. Opening, closing, poking positions and crossing ticks in either direction all preserve this, and gross liquidity per tick stays within its cap.",
["histories"],"for all histories of opening, closing and crossing","invariant over unbounded histories",
[C+"storage/tick.rs",C+"storage/pool.rs",C+"storage/position.rs",C+"entrypoints/execute.rs"],"pool liquidity, tick liquidity change/gross/sign","tick update and cross","pool and tick state")
p("A10","The tick bitmap and tick search find exactly the initialized ticks",
"A tick is marked in the pool's tick bitmap if and only if it is initialized; initializing or removing one tick never changes the mark of another tick or pool. The search from a tick returns the nearest initialized tick in the swap direction within the search range and nothing if there is none there.",
["inputs","histories"],"for all bitmaps, ticks, spacings and directions","2^64 contents per chunk and thousands of chunks; boundary chunks are rarely hit by samples",
[C+"storage/tickmap.rs",C+"state.rs",C+"entrypoints/common.rs"],"bitmap, ticks","bit flips, word-wise search","search result, tick marks")
p("A11","Each account's positions stay a gap-free list and are never lost or duplicated",
"An account's positions are always stored at indices 0..n-1; adding appends one, removing one moves at most the last position into its place, transferring moves exactly one position unchanged (with approvals cleared) to the end of the recipient's list, and no operation touches any other account's positions.",
["histories","inputs"],"for all accounts, list lengths and operation sequences","unbounded lists and histories, self-transfer and last-element cases",
[C+"state.rs",C+"entrypoints/execute.rs",C+"entrypoints/common.rs"],"positions, position counts","swap-remove list in key-value storage","position queries")
p("A12","Only authorized accounts can change what they do not own",
"Only the admin can change the admin, the protocol fee, fee receivers and fee tiers; only a pool's fee receiver can withdraw its protocol fees; a position can be withdrawn, claimed, transferred, burned or approved only by its owner or, where delegation applies, by a non-expired approved spender or operator of that owner. Any other caller's request fails without any state change, and a delegated action acts on the very position it names.",
["inputs","histories"],"for all callers, states and delegations","all caller/state combinations, expiry boundaries",
[C+"entrypoints/execute.rs",C+"entrypoints/common.rs",C+"contract.rs"],"config, pools, positions, operators","sender checks in handlers","success or failure and state change")
p("A13","User-set slippage bounds are always enforced",
"A position is created only if the pool price at that moment is within the caller's lower and upper price bounds, and a routed swap succeeds only if its final output is at least the expected output reduced by the given slippage, rounded up.",
["inputs"],"for all states and bounds","all price/limit combinations including equality",
[C+"storage/position.rs",C+"entrypoints/execute.rs",C+"math/clamm.rs"],"pool price","limit comparisons","success or failure")
p("A14","Token transfers match the accounted amounts exactly",
"Every deposit or swap charges the caller exactly the accounted amounts: for cw20 tokens by one transfer of exactly that amount from the caller to the contract, for native coins by keeping exactly that amount of the attached coins of that denom and returning the rest of them, failing when too little is attached. Every payout is one transfer of exactly the accounted amount to the caller, and zero amounts produce no transfer.",
["inputs"],"for all amounts, token kinds and attached funds","amounts are 128-bit, funds lists arbitrary",
[C+"interface.rs",C+"entrypoints/execute.rs",C+"entrypoints/common.rs"],"emitted messages","asset transfer helpers","messages in the response")
p("A15","Pools are unique per token pair and fee tier and start in a valid state",
"A pool can be created only for two different tokens, a registered fee tier and an initial tick on the spacing grid whose price interval contains the initial price; swapping the order of the two tokens names the same pool, and an existing pool is never overwritten. A new pool has zero liquidity and fees and pays protocol fees to the admin.",
["inputs","histories"],"for all token names, tiers, prices, ticks and existing pools","all strings and numeric combinations",
[C+"entrypoints/execute.rs",C+"storage/pool_key.rs",C+"storage/pool.rs",C+"math/clamm.rs"],"pools","pool creation handler","created pool")
p("A16","Storage keys never collide",
"Two different pools, ticks, bitmap words, or positions never share a storage key, and decoding a stored pool or fee-tier key returns the pool or tier it was made from.",
["inputs"],"for all token names, tiers, tick indices, chunk numbers, accounts and indices","all pairs of keys",
[C+"storage/pool_key.rs",C+"storage/fee_tier.rs",C+"state.rs"],"key encodings","length-prefixed and big-endian encodings","distinctness of keys, decode results")
p("A17","The client SDK computes the same numbers as the contract",
"For every input on which both succeed, the client SDK's swap-step, amount, price, tick, fee and tick-search computations return exactly the values the contract computes.",
["inputs"],"for all inputs of the duplicated formulas","two copies of the formulas over 128-bit inputs",
["wasm/clamm.rs","wasm/log.rs","wasm/types","wasm/math.rs",C+"math"],"-","duplicated math","values returned by both")
p("A18","Liquidity estimates never ask for more tokens than offered",
"When liquidity is estimated from an offered amount of one token for a price range, opening a position with the estimated liquidity at that price charges at most the offered amount of that token.",
["inputs"],"for all amounts, ranges and prices","continuous numeric domain; off-by-one appears only at special values",
[C+"logic/math.rs",C+"math/clamm.rs"],"-","inverse liquidity formulas","estimated liquidity versus charged amount")
p("A19","Listing and counting queries report exactly what is stored",
"Queries that list positions, position ids or tick-bitmap words, or count initialized ticks in a range, return exactly the stored items of the requested window, in order, without omission or duplication, and never more than the documented page size.",
["inputs","histories"],"for all stored states and query windows","all windows, chunk and page boundaries",
[C+"entrypoints/query.rs",C+"entrypoints/common.rs",C+"state.rs"],"positions, bitmap","pagination and bit counting","query responses")
p("A20","Fee tiers form a set of valid tiers",
"The registered fee tiers never contain a duplicate, a fee of 100% or more, or a tick spacing outside 1..100; adding a tier appends exactly that tier, removing deletes exactly that tier, and neither changes any other setting or existing pool.",
["inputs","histories"],"for all tiers and configuration histories","all histories of adding and removing",
[C+"entrypoints/execute.rs"],"config","admin handlers","fee tier queries")
p("A21","A pool never owes more than it was paid",
"For every pool and token, after any history of messages starting from instantiation, the exact amounts behind all open positions plus their unclaimed fees plus the uncollected protocol fees never exceed what users were charged for that pool minus what it paid out, up to less than 10^-14 of a base unit for every swap step and opened position; so a pool's payouts never exceed what was paid in for it.",
["inputs","histories"],"for all histories of all messages","unbounded histories with real-valued position worth; rounding errors can accumulate",
[C+"entrypoints",C+"math/clamm.rs",C+"storage/pool.rs",C+"storage/position.rs",C+"math/types/fee_growth.rs"],"pools, positions, ticks","money accounting","amounts owed versus amounts charged")
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
