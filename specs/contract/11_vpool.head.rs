// What the storage-level operations do to pools, ticks and positions (A07-A09, A13, A15).
pub mod vpool {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use crate::prelude::*;
use crate::{FeeTier, Pool, PoolKey, Position, Tick, UpdatePoolTick, SwapResult};
use crate::math::types::fee_growth::FeeGrowth;
use crate::math::types::liquidity::Liquidity;
use crate::math::types::sqrt_price::SqrtPrice;
use crate::math::types::token_amount::TokenAmount;
verus! {
pub open spec fn tick_net(t: Tick) -> int { if t.sign { t.liquidity_change.0 as int } else { -(t.liquidity_change.0 as int) } }
pub open spec fn tick_new(index: i32, pool: Pool, now: u64) -> Tick {
    let below = index <= pool.current_tick_index;
    Tick { index, sign: true, liquidity_change: Liquidity(0), liquidity_gross: Liquidity(0), sqrt_price: SqrtPrice(tick_price(index as int) as u128),
        fee_growth_outside_x: if below { pool.fee_growth_global_x } else { FeeGrowth(0) },
        fee_growth_outside_y: if below { pool.fee_growth_global_y } else { FeeGrowth(0) },
        seconds_outside: if below { (now - pool.start_timestamp) as u64 } else { 0 } }
}
pub open spec fn wsub64(a: int, b: int) -> int { let s = a - b; if s < 0 { s + 0x10000000000000000 } else { s } }
pub open spec fn tick_flip(t: Tick, p: Pool, now: u64) -> Tick {
    Tick { fee_growth_outside_x: FeeGrowth(wsub(p.fee_growth_global_x.0 as int, t.fee_growth_outside_x.0 as int) as u128),
        fee_growth_outside_y: FeeGrowth(wsub(p.fee_growth_global_y.0 as int, t.fee_growth_outside_y.0 as int) as u128),
        seconds_outside: wsub64(now - p.start_timestamp, t.seconds_outside as int) as u64, ..t }
}
/// change of active liquidity when a tick is crossed: upwards its net is added, downwards subtracted
pub open spec fn cross_delta(t: Tick, cur: int) -> int { if cur >= t.index { -tick_net(t) } else { tick_net(t) } }
pub open spec fn pool_new(p: Pool, price: SqrtPrice, tick: i32, now: u64, receiver: Seq<u8>) -> bool {
    &&& p.liquidity.0 == 0 && p.sqrt_price == price && p.current_tick_index == tick && p.fee_growth_global_x.0 == 0 && p.fee_growth_global_y.0 == 0
    &&& p.fee_protocol_token_x.0 == 0 && p.fee_protocol_token_y.0 == 0 && p.start_timestamp == now && p.last_timestamp == now && p.fee_receiver@ == receiver
}
/// the protocol's share is rounded up; the rest is credited to the active liquidity (nothing happens without any)
pub open spec fn protocol_share(amount: int, rate: int) -> int { cdiv(amount * rate, E12()) }
pub open spec fn pool_add_fee(p: Pool, q: Pool, amount: int, in_x: bool, rate: int) -> bool {
    let pf = protocol_share(amount, rate);
    let rest = amount - pf;
    &&& rest >= 0
    &&& if (rest == 0 && pf == 0) || p.liquidity.0 == 0 { q == p }
        else {
            let g = growth_of(rest, p.liquidity.0 as int);
            if in_x {
                q == (Pool { fee_growth_global_x: q.fee_growth_global_x, fee_protocol_token_x: q.fee_protocol_token_x, ..p })
                && q.fee_growth_global_x.0 == wadd(p.fee_growth_global_x.0 as int, g) && q.fee_protocol_token_x.0 == p.fee_protocol_token_x.0 + pf
            } else {
                q == (Pool { fee_growth_global_y: q.fee_growth_global_y, fee_protocol_token_y: q.fee_protocol_token_y, ..p })
                && q.fee_growth_global_y.0 == wadd(p.fee_growth_global_y.0 as int, g) && q.fee_protocol_token_y.0 == p.fee_protocol_token_y.0 + pf
            }
        }
}
/// the tick a price belongs to (see vtick)
pub open spec fn update_tick_ok(p: Pool, q: Pool, t: UpdatePoolTick, u: UpdatePoolTick, result: SwapResult, limit: SqrtPrice, rem: int, by_in: bool, xy: bool, now: u64, rate: int, ft: FeeTier,
    added: int, rem2: int, crossed: bool) -> bool
{
    if t is NoTick || limit.0 != result.next_sqrt_price.0 {
        let i = tick_at(result.next_sqrt_price.0 as int, ft.tick_spacing as int);
        &&& u == t && added == 0 && rem2 == rem && !crossed
        &&& q == (Pool { current_tick_index: q.current_tick_index, ..p })
        &&& q.current_tick_index == (if xy && p.current_tick_index < i { p.current_tick_index as int } else { i })
    } else {
        let enough = enough_spec(rem, result.next_sqrt_price.0 as int, p.liquidity.0 as int, ft.fee.0 as int, by_in, xy);
        match t {
            UpdatePoolTick::TickInitialized(tk) => {
                &&& q.current_tick_index == (if xy && enough { tk.index - ft.tick_spacing } else { tk.index as int })
                &&& if !xy || enough {
                    &&& crossed && added == 0 && rem2 == rem && now >= p.start_timestamp
                    &&& u == UpdatePoolTick::TickInitialized(tick_flip(tk, p, now))
                    &&& q.liquidity.0 == p.liquidity.0 + cross_delta(tk, p.current_tick_index as int)
                    &&& q == (Pool { liquidity: q.liquidity, last_timestamp: now, current_tick_index: q.current_tick_index, ..p })
                } else {
                    &&& !crossed && u == t && rem2 == 0
                    &&& added == (if by_in { rem } else { 0 })
                    &&& if by_in && rem != 0 { exists|m: Pool| pool_add_fee(p, m, rem, xy, rate) && q == (Pool { current_tick_index: q.current_tick_index, ..m }) }
                        else { q == (Pool { current_tick_index: q.current_tick_index, ..p }) }
                }
            }
            UpdatePoolTick::TickUninitialized(i) => {
                &&& u == t && added == 0 && rem2 == rem && !crossed
                &&& q == (Pool { current_tick_index: q.current_tick_index, ..p })
                &&& q.current_tick_index == (if xy && enough { i - ft.tick_spacing } else { i as int })
            }
            UpdatePoolTick::NoTick => false,
        }
    }
}
pub open spec fn position_new(p: Position, key: PoolKey, lower: i32, upper: i32, block: u64) -> bool {
    &&& p.pool_key == key && p.liquidity.0 == 0 && p.lower_tick_index == lower && p.upper_tick_index == upper
    &&& p.fee_growth_inside_x.0 == 0 && p.fee_growth_inside_y.0 == 0 && p.last_block_number == block
    &&& p.tokens_owed_x.0 == 0 && p.tokens_owed_y.0 == 0 && p.approvals@.len() == 0
}
pub open spec fn position_update(p: Position, q: Position, add: bool, delta: int, gx: FeeGrowth, gy: FeeGrowth) -> bool {
    &&& !(delta == 0 && p.liquidity.0 == 0)
    &&& q == (Position { liquidity: q.liquidity, fee_growth_inside_x: gx, fee_growth_inside_y: gy, tokens_owed_x: q.tokens_owed_x, tokens_owed_y: q.tokens_owed_y, ..p })
    &&& q.liquidity.0 == p.liquidity.0 + (if add { delta } else { -delta })
    &&& q.tokens_owed_x.0 == p.tokens_owed_x.0 + fee_of(wsub(gx.0 as int, p.fee_growth_inside_x.0 as int), p.liquidity.0 as int)
    &&& q.tokens_owed_y.0 == p.tokens_owed_y.0 + fee_of(wsub(gy.0 as int, p.fee_growth_inside_y.0 as int), p.liquidity.0 as int)
}
pub open spec fn tick_update_ok(t: Tick, u: Tick, delta: int, is_upper: bool, add: bool, spacing: int) -> bool {
    &&& tick_net(u) == tick_net(t) + (if add != is_upper { delta } else { -delta })
    &&& u.liquidity_gross.0 == t.liquidity_gross.0 + (if add { delta } else { -delta })
    &&& add ==> u.liquidity_gross.0 < max_liq_per_tick(spacing)
    &&& u == (Tick { liquidity_gross: u.liquidity_gross, liquidity_change: u.liquidity_change, sign: u.sign, ..t })
}
pub open spec fn max_liq_per_tick(spacing: int) -> int { 0xffffffffffffffffffffffffffffffffint / (443637int / spacing) }
pub open spec fn modify_ok(s: Position, s2: Position, p: Pool, p2: Pool, lo: Tick, lo2: Tick, up: Tick, up2: Tick, delta: int, add: bool, now: u64, spacing: int) -> bool {
    &&& lo.index <= up.index
    &&& tick_update_ok(lo, lo2, delta, false, add, spacing)
    &&& tick_update_ok(up, up2, delta, true, add, spacing)
    &&& p2 == (Pool { liquidity: p2.liquidity, last_timestamp: now, ..p })
    &&& p2.liquidity.0 == p.liquidity.0 + (if lo.index <= p.current_tick_index < up.index { if add { delta } else { -delta } } else { 0 })
    &&& position_update(s, s2, add, delta, s2.fee_growth_inside_x, s2.fee_growth_inside_y)
    &&& s2.fee_growth_inside_x.0 == fg_inside(lo.index as int, lo.fee_growth_outside_x.0 as int, up.index as int, up.fee_growth_outside_x.0 as int, p.current_tick_index as int, p.fee_growth_global_x.0 as int)
    &&& s2.fee_growth_inside_y.0 == fg_inside(lo.index as int, lo.fee_growth_outside_y.0 as int, up.index as int, up.fee_growth_outside_y.0 as int, p.current_tick_index as int, p.fee_growth_global_y.0 as int)
}
} // verus!
} // mod vpool
