#rem ---- logic/math: liquidity estimates (A18) ----
#fn logic::math::calculate_x
    ensures r is Ok && denominator.0 > 0 ==> r->Ok_0.0 == ({ let c = (liquidity.0 * nominator.0 / E24()) * E24() / denominator.0 as int; if rounding_up { cdiv(c, E6()) } else { c / E6() } })
#fn logic::math::calculate_y
    ensures r is Ok ==> r->Ok_0.0 == ({ let t = sqrt_price_diff.0 * (liquidity.0 as int / E6()); if rounding_up { cdiv(t, E24()) } else { t / E24() } })
#fn logic::math::get_liquidity_by_x_sqrt_price
    ensures
        r is Ok ==> current_sqrt_price.0 <= upper_sqrt_price.0,
        r is Ok && lower_sqrt_price.0 < upper_sqrt_price.0 && current_sqrt_price.0 < upper_sqrt_price.0 ==> r->Ok_0.l.0 == est_by_x(x.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int, current_sqrt_price.0 as int),
        r is Ok ==> r->Ok_0.amount.0 == est_with_y(r->Ok_0.l.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int, current_sqrt_price.0 as int, rounding_up),
        r is Ok && lower_sqrt_price.0 >= MIN_SQRT_PRICE && lower_sqrt_price.0 < upper_sqrt_price.0 ==> forall|m: int| 0 <= m <= r->Ok_0.l.0 ==> #[trigger] x_cost_ok(x.0 as int, m, current_sqrt_price.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int)
#start
    proof { lemma_x_cost(x.0 as int, current_sqrt_price.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int); }
#fn logic::math::get_liquidity_by_y_sqrt_price
    ensures
        r is Ok ==> lower_sqrt_price.0 <= current_sqrt_price.0,
        r is Ok && lower_sqrt_price.0 < upper_sqrt_price.0 && lower_sqrt_price.0 < current_sqrt_price.0 ==> r->Ok_0.l.0 == est_by_y(y.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int, current_sqrt_price.0 as int),
        r is Ok && current_sqrt_price.0 >= MIN_SQRT_PRICE && upper_sqrt_price.0 >= MIN_SQRT_PRICE ==> r->Ok_0.amount.0 == est_with_x(r->Ok_0.l.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int, current_sqrt_price.0 as int, rounding_up),
        r is Ok && lower_sqrt_price.0 < upper_sqrt_price.0 ==> forall|m: int| 0 <= m <= r->Ok_0.l.0 ==> #[trigger] y_cost_ok(y.0 as int, m, current_sqrt_price.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int)
#start
    proof { lemma_est_den(current_sqrt_price.0 as int, upper_sqrt_price.0 as int); lemma_y_cost(y.0 as int, current_sqrt_price.0 as int, lower_sqrt_price.0 as int, upper_sqrt_price.0 as int); }
#fn logic::math::get_liquidity_by_x
    ensures r is Ok ==> x_covers(x.0 as int, r->Ok_0.l.0 as int, current_sqrt_price.0 as int, lower_tick as int, upper_tick as int),
        r is Ok && lower_tick < upper_tick && current_sqrt_price.0 < tick_price(upper_tick as int) ==> r->Ok_0.l.0 == est_by_x(x.0 as int, tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.0 as int),
        r is Ok ==> r->Ok_0.amount.0 == est_with_y(r->Ok_0.l.0 as int, tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.0 as int, rounding_up)
#start
    proof { lemma_covers(x.0 as int, 0, current_sqrt_price.0 as int, lower_tick as int, upper_tick as int); }
#fn logic::math::get_liquidity_by_y
    ensures r is Ok ==> y_covers(y.0 as int, r->Ok_0.l.0 as int, current_sqrt_price.0 as int, lower_tick as int, upper_tick as int),
        r is Ok && lower_tick < upper_tick && tick_price(lower_tick as int) < current_sqrt_price.0 ==> r->Ok_0.l.0 == est_by_y(y.0 as int, tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.0 as int),
        r is Ok && current_sqrt_price.0 >= MIN_SQRT_PRICE ==> r->Ok_0.amount.0 == est_with_x(r->Ok_0.l.0 as int, tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.0 as int, rounding_up)
#start
    proof { if -MAXT() <= upper_tick <= MAXT() { lemma_price_range(upper_tick as int); } lemma_covers(0, y.0 as int, current_sqrt_price.0 as int, lower_tick as int, upper_tick as int); }
#fn logic::math::get_liquidity
    ensures
        r is Ok ==> x_covers(x.0 as int, r->Ok_0.l.0 as int, current_sqrt_price.0 as int, lower_tick as int, upper_tick as int),
        r is Ok ==> y_covers(y.0 as int, r->Ok_0.l.0 as int, current_sqrt_price.0 as int, lower_tick as int, upper_tick as int)
#start
    proof { lemma_covers(x.0 as int, y.0 as int, current_sqrt_price.0 as int, lower_tick as int, upper_tick as int); }
