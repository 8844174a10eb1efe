#rem ---- math/types/fee_growth ----
#fn math::types::fee_growth::FeeGrowth::unchecked_add
    ensures r.0 == wadd(self.0 as int, other.0 as int)
#fn math::types::fee_growth::FeeGrowth::unchecked_sub
    ensures r.0 == wsub(self.0 as int, other.0 as int)
#fn math::types::fee_growth::FeeGrowth::from_fee
    ensures r is Ok ==> liquidity.0 > 0 && r->Ok_0.0 == growth_of(fee.0 as int, liquidity.0 as int)
#start
    proof { assert(E34() == E28() * E6()); assert((fee.0 * E28()) * E6() == fee.0 * E34()) by (nonlinear_arith) requires E34() == E28() * E6(); }
#fn math::types::fee_growth::FeeGrowth::to_fee
    ensures r is Ok ==> r->Ok_0.0 == fee_of(self.0 as int, liquidity.0 as int)
#start
    proof { assert(vpow(10, 34) == E34()) by (compute); }
#fn math::types::fee_growth::calculate_fee_growth_inside
    ensures
        r.0.0 == fg_inside(tick_lower as int, tick_lower_fee_growth_outside_x.0 as int, tick_upper as int, tick_upper_fee_growth_outside_x.0 as int, tick_current as int, fee_growth_global_x.0 as int),
        r.1.0 == fg_inside(tick_lower as int, tick_lower_fee_growth_outside_y.0 as int, tick_upper as int, tick_upper_fee_growth_outside_y.0 as int, tick_current as int, fee_growth_global_y.0 as int)
#rem ---- storage/tick ----
#mod storage::tick
impl vstd::std_specs::convert::FromSpecImpl<Tick> for LiquidityTick {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(tick: Tick) -> LiquidityTick { LiquidityTick { index: tick.index, liquidity_change: tick.liquidity_change, sign: tick.sign } }
}
#fn storage::tick::LiquidityTick::From<Tick>::from
    ensures r.index == tick.index, r.liquidity_change == tick.liquidity_change, r.sign == tick.sign
#fn storage::tick::Tick::create
#panicops
    ensures
        -MAXT() <= index <= MAXT(),
        r == tick_new(index, *pool, current_timestamp)
#fn storage::tick::Tick::cross
    ensures
        r is Ok ==> current_timestamp >= old(pool).start_timestamp && *final(self) == tick_flip(*old(self), *old(pool), current_timestamp),
        r is Ok ==> final(pool).liquidity.0 == old(pool).liquidity.0 + cross_delta(*old(self), old(pool).current_tick_index as int),
        r is Ok ==> *final(pool) == (Pool { liquidity: final(pool).liquidity, last_timestamp: current_timestamp, ..*old(pool) })
#fn storage::tick::Tick::update
    ensures
        r is Ok ==> tick_net(*final(self)) == tick_net(*old(self)) + (if is_deposit != is_upper { liquidity_delta.0 as int } else { -(liquidity_delta.0 as int) }),
        r is Ok ==> final(self).liquidity_gross.0 == old(self).liquidity_gross.0 + (if is_deposit { liquidity_delta.0 as int } else { -(liquidity_delta.0 as int) }),
        r is Ok && is_deposit ==> final(self).liquidity_gross.0 < max_liquidity_per_tick.0,
        r is Ok ==> *final(self) == (Tick { liquidity_gross: final(self).liquidity_gross, liquidity_change: final(self).liquidity_change, sign: final(self).sign, ..*old(self) })
#fn storage::tick::Tick::update_liquidity_change
    ensures
        tick_net(*final(self)) == tick_net(*old(self)) + (if add { liquidity_delta.0 as int } else { -(liquidity_delta.0 as int) }),
        *final(self) == (Tick { liquidity_change: final(self).liquidity_change, sign: final(self).sign, ..*old(self) })
#fn storage::tick::Tick::calculate_new_liquidity_gross
    ensures
        r is Ok ==> r->Ok_0.0 == self.liquidity_gross.0 + (if sign { liquidity_delta.0 as int } else { -(liquidity_delta.0 as int) }),
        r is Ok && sign ==> r->Ok_0.0 < max_liquidity_per_tick.0
#rem ---- storage/pool ----
#fn storage::pool::Pool::create
    ensures r is Ok ==> price_in_tick(init_tick as int, tick_spacing as int, init_sqrt_price.0 as int)
        && pool_new(r->Ok_0, init_sqrt_price, init_tick, current_timestamp, fee_receiver@)
#fn storage::pool::Pool::add_fee
    ensures r is Ok ==> pool_add_fee(*old(self), *final(self), amount.0 as int, in_x, protocol_fee.0 as int)
#fn storage::pool::Pool::update_liquidity
    ensures
        r is Ok ==> lower_tick <= upper_tick,
        r is Ok ==> r->Ok_0.0.0 == amount_x_spec(old(self).current_tick_index as int, old(self).sqrt_price.0 as int, liquidity_delta.0 as int, liquidity_sign, upper_tick as int, lower_tick as int),
        r is Ok ==> r->Ok_0.1.0 == amount_y_spec(old(self).current_tick_index as int, old(self).sqrt_price.0 as int, liquidity_delta.0 as int, liquidity_sign, upper_tick as int, lower_tick as int),
        r is Ok ==> final(self).liquidity.0 == old(self).liquidity.0 + (if lower_tick <= old(self).current_tick_index < upper_tick { if liquidity_sign { liquidity_delta.0 as int } else { -(liquidity_delta.0 as int) } } else { 0 }),
        r is Ok ==> *final(self) == (Pool { liquidity: final(self).liquidity, ..*old(self) })
#fn storage::pool::Pool::update_tick
#panicops
    ensures
        r is Ok ==> update_tick_ok(*old(self), *final(self), *old(tick), *final(tick), result, swap_limit, remaining_amount.0 as int, by_amount_in, x_to_y, current_timestamp, protocol_fee.0 as int, fee_tier,
            r->Ok_0.0.0 as int, r->Ok_0.1.0 as int, r->Ok_0.2)
#fn storage::pool::Pool::withdraw_protocol_fee
    ensures
        r.0 == old(self).fee_protocol_token_x, r.1 == old(self).fee_protocol_token_y,
        *final(self) == (Pool { fee_protocol_token_x: TokenAmount(0), fee_protocol_token_y: TokenAmount(0), ..*old(self) })
#rem ---- storage/position ----
#fn storage::position::Position::calculate_new_liquidity
    ensures *final(self) == *old(self),
        r is Ok ==> r->Ok_0.0 == old(self).liquidity.0 + (if sign { liquidity_delta.0 as int } else { -(liquidity_delta.0 as int) })
#fn storage::position::Position::update
    ensures r is Ok ==> position_update(*old(self), *final(self), sign, liquidity_delta.0 as int, fee_growth_inside_x, fee_growth_inside_y)
#fn storage::position::Position::modify
    ensures
        r is Ok ==> modify_ok(*old(self), *final(self), *old(pool), *final(pool), *old(lower_tick), *final(lower_tick), *old(upper_tick), *final(upper_tick), liquidity_delta.0 as int, add, current_timestamp, tick_spacing as int),
        r is Ok ==> r->Ok_0.0.0 == amount_x_spec(old(pool).current_tick_index as int, old(pool).sqrt_price.0 as int, liquidity_delta.0 as int, add, old(upper_tick).index as int, old(lower_tick).index as int),
        r is Ok ==> r->Ok_0.1.0 == amount_y_spec(old(pool).current_tick_index as int, old(pool).sqrt_price.0 as int, liquidity_delta.0 as int, add, old(upper_tick).index as int, old(lower_tick).index as int)
#fn storage::position::Position::claim_fee
    ensures
        r is Ok ==> exists|mid: Position| modify_ok(*old(self), mid, *old(pool), *final(pool), *old(lower_tick), *final(lower_tick), *old(upper_tick), *final(upper_tick), 0, true, current_timestamp, old(self).pool_key.fee_tier.tick_spacing as int)
            && r->Ok_0.0 == mid.tokens_owed_x && r->Ok_0.1 == mid.tokens_owed_y
            && *final(self) == (Position { tokens_owed_x: TokenAmount(0), tokens_owed_y: TokenAmount(0), ..mid })
#fn storage::position::Position::create
    ensures
        r is Ok ==> slippage_limit_lower.0 <= old(pool).sqrt_price.0 <= slippage_limit_upper.0,
        r is Ok ==> exists|p0: Position| position_new(p0, pool_key, old(lower_tick).index, old(upper_tick).index, block_number)
            && modify_ok(p0, r->Ok_0.0, *old(pool), *final(pool), *old(lower_tick), *final(lower_tick), *old(upper_tick), *final(upper_tick), liquidity_delta.0 as int, true, current_timestamp, tick_spacing as int),
        r is Ok ==> r->Ok_0.1.0 == amount_x_spec(old(pool).current_tick_index as int, old(pool).sqrt_price.0 as int, liquidity_delta.0 as int, true, old(upper_tick).index as int, old(lower_tick).index as int),
        r is Ok ==> r->Ok_0.2.0 == amount_y_spec(old(pool).current_tick_index as int, old(pool).sqrt_price.0 as int, liquidity_delta.0 as int, true, old(upper_tick).index as int, old(lower_tick).index as int)
#afterlet position
    let ghost p0 = position;
#end
    proof { if __ret is Ok { assert(position_new(p0, pool_key, old(lower_tick).index, old(upper_tick).index, block_number)); } }
#fn storage::position::Position::remove
    ensures
        r is Ok ==> modify_ok(*old(self), *final(self), *old(pool), *final(pool), *old(lower_tick), *final(lower_tick), *old(upper_tick), *final(upper_tick), old(self).liquidity.0 as int, false, current_timestamp, tick_spacing as int),
        r is Ok ==> r->Ok_0.0.0 == amount_x_spec(old(pool).current_tick_index as int, old(pool).sqrt_price.0 as int, old(self).liquidity.0 as int, false, old(upper_tick).index as int, old(lower_tick).index as int) + final(self).tokens_owed_x.0,
        r is Ok ==> r->Ok_0.1.0 == amount_y_spec(old(pool).current_tick_index as int, old(pool).sqrt_price.0 as int, old(self).liquidity.0 as int, false, old(upper_tick).index as int, old(lower_tick).index as int) + final(self).tokens_owed_y.0,
        r is Ok ==> r->Ok_0.2 == (final(lower_tick).liquidity_gross.0 == 0) && r->Ok_0.3 == (final(upper_tick).liquidity_gross.0 == 0)
