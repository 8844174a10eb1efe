#rem ---- math/types/fee_growth ----
#fn types::fee_growth::FeeGrowth::unchecked_add
    ensures r.0 == wadd(self.0 as int, other.0 as int)
#fn types::fee_growth::FeeGrowth::unchecked_sub
    ensures r.0 == wsub(self.0 as int, other.0 as int)
#fn types::fee_growth::FeeGrowth::from_fee
    ensures r is Ok ==> liquidity.0 > 0 && r->Ok_0.0 == growth_of(fee.0 as int, liquidity.0 as int)
#start
    proof { assert(E34() == E28() * E6()); assert((fee.0 * E28()) * E6() == fee.0 * E34()) by (nonlinear_arith) requires E34() == E28() * E6(); }
#fn types::fee_growth::FeeGrowth::to_fee
    ensures r is Ok ==> r->Ok_0.0 == fee_of(self.0 as int, liquidity.0 as int)
#start
    proof { assert(vpow(10, 34) == E34()) by (compute); }
#fn types::fee_growth::calculate_fee_growth_inside
    ensures
        r.0.0 == fg_inside(tick_lower as int, tick_lower_fee_growth_outside_x.0 as int, tick_upper as int, tick_upper_fee_growth_outside_x.0 as int, tick_current as int, fee_growth_global_x.0 as int),
        r.1.0 == fg_inside(tick_lower as int, tick_lower_fee_growth_outside_y.0 as int, tick_upper as int, tick_upper_fee_growth_outside_y.0 as int, tick_current as int, fee_growth_global_y.0 as int)
#rem ---- logic/math: liquidity estimates (A18) ----
#fn math::calculate_x
    ensures r is Ok && denominator.0 > 0 ==> r->Ok_0.0 == ({ let c = (liquidity.0 * nominator.0 / E24()) * E24() / denominator.0 as int; if rounding_up { cdiv(c, E6()) } else { c / E6() } })
#fn math::calculate_y
    ensures r is Ok ==> r->Ok_0.0 == ({ let t = sqrt_price_diff.0 * (liquidity.0 as int / E6()); if rounding_up { cdiv(t, E24()) } else { t / E24() } })
#fn math::get_liquidity_by_x_sqrt_price
    ensures
        r is Ok ==> current_sqrt_price.0 <= upper_sqrt_price.0,
        r is Ok && lower_sqrt_price.0 < upper_sqrt_price.0 && current_sqrt_price.0 < upper_sqrt_price.0 ==> r->Ok_0.l.0 == est_by_x(x.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int, current_sqrt_price.0 as int),
        r is Ok ==> r->Ok_0.amount.0 == est_with_y(r->Ok_0.l.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int, current_sqrt_price.0 as int, rounding_up),
        r is Ok && lower_sqrt_price.0 >= MIN_SQRT_PRICE && lower_sqrt_price.0 < upper_sqrt_price.0 ==> forall|m: int| 0 <= m <= r->Ok_0.l.0 ==> #[trigger] x_cost_ok(x.0 as int, m, current_sqrt_price.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int)
#start
    proof { lemma_x_cost(x.0 as int, current_sqrt_price.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int); }
#fn math::get_liquidity_by_y_sqrt_price
    ensures
        r is Ok ==> lower_sqrt_price.0 <= current_sqrt_price.0,
        r is Ok && lower_sqrt_price.0 < upper_sqrt_price.0 && lower_sqrt_price.0 < current_sqrt_price.0 ==> r->Ok_0.l.0 == est_by_y(y.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int, current_sqrt_price.0 as int),
        r is Ok && current_sqrt_price.0 >= MIN_SQRT_PRICE && upper_sqrt_price.0 >= MIN_SQRT_PRICE ==> r->Ok_0.amount.0 == est_with_x(r->Ok_0.l.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int, current_sqrt_price.0 as int, rounding_up),
        r is Ok && lower_sqrt_price.0 < upper_sqrt_price.0 ==> forall|m: int| 0 <= m <= r->Ok_0.l.0 ==> #[trigger] y_cost_ok(y.0 as int, m, current_sqrt_price.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int)
#start
    proof { lemma_est_den(current_sqrt_price.0 as int, upper_sqrt_price.0 as int); lemma_y_cost(y.0 as int, current_sqrt_price.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int); }
#fn math::get_liquidity_by_x
    ensures r is Ok ==> x_covers(x.0 as int, r->Ok_0.l.0 as int, current_sqrt_price.0 as int, lower_tick as int, upper_tick as int),
        r is Ok && lower_tick < upper_tick && current_sqrt_price.0 < tick_price(upper_tick as int) ==> r->Ok_0.l.0 == est_by_x(x.0 as int, tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.0 as int),
        r is Ok ==> r->Ok_0.amount.0 == est_with_y(r->Ok_0.l.0 as int, tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.0 as int, rounding_up)
#start
    proof { lemma_covers(x.0 as int, 0, current_sqrt_price.0 as int, lower_tick as int, upper_tick as int); }
#fn math::get_liquidity_by_y
    ensures r is Ok ==> y_covers(y.0 as int, r->Ok_0.l.0 as int, current_sqrt_price.0 as int, lower_tick as int, upper_tick as int),
        r is Ok && lower_tick < upper_tick && tick_price(lower_tick as int) < current_sqrt_price.0 ==> r->Ok_0.l.0 == est_by_y(y.0 as int, tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.0 as int),
        r is Ok && current_sqrt_price.0 >= MIN_SQRT_PRICE ==> r->Ok_0.amount.0 == est_with_x(r->Ok_0.l.0 as int, tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.0 as int, rounding_up)
#start
    proof { if -MAXT() <= upper_tick <= MAXT() { lemma_price_range(upper_tick as int); } lemma_covers(0, y.0 as int, current_sqrt_price.0 as int, lower_tick as int, upper_tick as int); }
#rem ---- custom: what the SDK exports besides ----
#fn custom::calculate_fee
    ensures r is Ok ==> ({
        let gx = fg_inside(lower_tick_index as int, lower_tick_fee_growth_outside_x.0 as int, upper_tick_index as int, upper_tick_fee_growth_outside_x.0 as int, pool_current_tick_index as int, pool_fee_growth_global_x.0 as int);
        let gy = fg_inside(lower_tick_index as int, lower_tick_fee_growth_outside_y.0 as int, upper_tick_index as int, upper_tick_fee_growth_outside_y.0 as int, pool_current_tick_index as int, pool_fee_growth_global_y.0 as int);
        &&& r->Ok_0.x.0 == fee_of(wsub(gx, position_fee_growth_inside_x.0 as int), position_liquidity.0 as int)
        &&& r->Ok_0.y.0 == fee_of(wsub(gy, position_fee_growth_inside_y.0 as int), position_liquidity.0 as int)
    })
#fn custom::check_tick_to_sqrt_price_relationship
#panicops
    ensures r is Ok && tick_spacing > 0 ==> r->Ok_0 == price_in_tick(tick_index as int, tick_spacing as int, sqrt_price.0 as int)
#fn consts::get_tick_search_range
    ensures r == 256
#fn consts::get_chunk_size
    ensures r == 64
#fn consts::get_max_tickmap_query_size
    ensures r == 1638
#fn consts::get_liquidity_ticks_limit
    ensures r == 780
#fn consts::get_max_chunk
#panicops
    ensures tick_spacing > 0, r == bidx((MAXT() / (tick_spacing as int)) * tick_spacing, tick_spacing as int) / 64
#fn storage::pool_key::new_pool_key
    ensures
        (r is Ok) == (token_0@ != token_1@),
        r is Ok ==> seq_lt(r->Ok_0.token_x@, r->Ok_0.token_y@) && r->Ok_0.fee_tier == fee_tier,
        r is Ok ==> (r->Ok_0.token_x@ == token_0@ && r->Ok_0.token_y@ == token_1@) || (r->Ok_0.token_x@ == token_1@ && r->Ok_0.token_y@ == token_0@)
