#rem ---- math/types and math/clamm ----
#fn math::types::sqrt_price::SqrtPrice::big_div_values_to_token
    ensures r is Ok ==> denominator.val() > 0 && r->Ok_0.0 == (nominator.val() * E24() / denominator.val()) / E24()
#fn math::types::sqrt_price::SqrtPrice::big_div_values_to_token_up
    ensures r is Ok ==> denominator.val() > 0 && r->Ok_0.0 == cdiv(cdiv(nominator.val() * E24(), denominator.val()), E24())
#fn math::types::sqrt_price::SqrtPrice::big_div_values_up
    ensures denominator.val() > 0, r.0 == cdiv(nominator.val() * E24(), denominator.val())
#fn math::types::sqrt_price::SqrtPrice::checked_big_div_values
    ensures r is Ok ==> denominator.val() > 0 && r->Ok_0.0 == nominator.val() * E24() / denominator.val()
#fn math::types::sqrt_price::SqrtPrice::checked_big_div_values_up
    ensures r is Ok ==> denominator.val() > 0 && r->Ok_0.0 == cdiv(nominator.val() * E24(), denominator.val())
#fn math::types::token_amount::TokenAmount::from_big_sqrt_price
    ensures r is Ok ==> r->Ok_0.0 == value.val() / E24()
#fn math::types::token_amount::TokenAmount::from_big_sqrt_price_up
    ensures r is Ok ==> r->Ok_0.0 == cdiv(value.val(), E24())
#fn math::clamm::get_delta_x
    ensures r is Ok ==> r->Ok_0.0 == dx(sqrt_price_a.0 as int, sqrt_price_b.0 as int, liquidity.0 as int, rounding_up),
        r is Ok && rounding_up ==> sqrt_price_a.0 * sqrt_price_b.0 / E24() > 0
#fn math::clamm::get_delta_y
    ensures r is Ok ==> r->Ok_0.0 == dy(sqrt_price_a.0 as int, sqrt_price_b.0 as int, liquidity.0 as int, rounding_up)
#fn math::clamm::get_next_sqrt_price_x_up
    ensures r is Ok ==> r->Ok_0.0 == (if add_x { nx_add(starting_sqrt_price.0 as int, liquidity.0 as int, x.0 as int) } else { nx_sub(starting_sqrt_price.0 as int, liquidity.0 as int, x.0 as int) })
#start
    proof { liquidity.dlaws(); assert(pow10(18) == E18()) by (compute); }
#fn math::clamm::get_next_sqrt_price_y_down
    ensures r is Ok ==> r->Ok_0.0 == (if add_y { ny_add(starting_sqrt_price.0 as int, liquidity.0 as int, y.0 as int) } else { ny_sub(starting_sqrt_price.0 as int, liquidity.0 as int, y.0 as int) })
#start
    proof { assert(pow10(18) == E18()) by (compute); assert(pow10(24) == E24()) by (compute); }
#fn math::clamm::get_next_sqrt_price_from_input
    ensures r is Ok ==> r->Ok_0.0 == (if x_to_y { nx_add(starting_sqrt_price.0 as int, liquidity.0 as int, amount.0 as int) } else { ny_add(starting_sqrt_price.0 as int, liquidity.0 as int, amount.0 as int) })
#fn math::clamm::get_next_sqrt_price_from_output
    ensures r is Ok ==> r->Ok_0.0 == (if x_to_y { ny_sub(starting_sqrt_price.0 as int, liquidity.0 as int, amount.0 as int) } else { nx_sub(starting_sqrt_price.0 as int, liquidity.0 as int, amount.0 as int) })
#fn math::clamm::compute_swap_step
    ensures
        r is Ok ==> r->Ok_0.next_sqrt_price.0 == step_next(current_sqrt_price.0 as int, target_sqrt_price.0 as int, liquidity.0 as int, amount.0 as int, by_amount_in, fee.0 as int),
        r is Ok ==> r->Ok_0.amount_in.0 == step_in(current_sqrt_price.0 as int, target_sqrt_price.0 as int, liquidity.0 as int, amount.0 as int, by_amount_in, fee.0 as int),
        r is Ok ==> r->Ok_0.amount_out.0 == step_out(current_sqrt_price.0 as int, target_sqrt_price.0 as int, liquidity.0 as int, amount.0 as int, by_amount_in, fee.0 as int),
        r is Ok ==> r->Ok_0.fee_amount.0 == step_fee(current_sqrt_price.0 as int, target_sqrt_price.0 as int, liquidity.0 as int, amount.0 as int, by_amount_in, fee.0 as int),
        r is Ok && current_sqrt_price.0 >= MIN_SQRT_PRICE && target_sqrt_price.0 >= MIN_SQRT_PRICE ==> step_ok(current_sqrt_price.0 as int, target_sqrt_price.0 as int, liquidity.0 as int, amount.0 as int, by_amount_in, fee.0 as int,
            r->Ok_0.next_sqrt_price.0 as int, r->Ok_0.amount_in.0 as int, r->Ok_0.amount_out.0 as int, r->Ok_0.fee_amount.0 as int)
#start
    proof {
        if current_sqrt_price.0 >= MIN_SQRT_PRICE && target_sqrt_price.0 >= MIN_SQRT_PRICE && (liquidity.0 > 0 && by_amount_in ==> fee.0 <= E12()) {
            lemma_min_price_sq(current_sqrt_price.0 as int); lemma_min_price_sq(target_sqrt_price.0 as int);
            lemma_step_ok(current_sqrt_price.0 as int, target_sqrt_price.0 as int, liquidity.0 as int, amount.0 as int, by_amount_in, fee.0 as int);
        }
    }
#fn math::clamm::calculate_amount_delta
    ensures
        r is Ok ==> lower_tick <= upper_tick,
        r is Ok ==> r->Ok_0.0.0 == amount_x_spec(current_tick_index as int, current_sqrt_price.0 as int, liquidity_delta.0 as int, liquidity_sign, upper_tick as int, lower_tick as int),
        r is Ok ==> r->Ok_0.1.0 == amount_y_spec(current_tick_index as int, current_sqrt_price.0 as int, liquidity_delta.0 as int, liquidity_sign, upper_tick as int, lower_tick as int),
        r is Ok ==> r->Ok_0.2 == (lower_tick <= current_tick_index < upper_tick)
#fn math::clamm::is_enough_amount_to_change_price
    ensures r is Ok ==> r->Ok_0 == enough_spec(amount.0 as int, starting_sqrt_price.0 as int, liquidity.0 as int, fee.0 as int, by_amount_in, x_to_y)
#fn math::clamm::calculate_max_liquidity_per_tick
#panicops
    ensures tick_spacing > 0, r.0 == 0xffffffffffffffffffffffffffffffffint / (443637int / tick_spacing as int)
#fn math::clamm::check_ticks
    ensures (r is Ok) ==> tick_lower <= tick_upper && valid_tick(tick_lower as int, tick_spacing as int) && valid_tick(tick_upper as int, tick_spacing as int)
#fn math::clamm::check_tick
#panicops
    ensures (r is Ok) == valid_tick(tick_index as int, tick_spacing as int), tick_spacing > 0
#start
    proof { lemma_trem(tick_index as int, tick_spacing as int); }
#fn math::clamm::calculate_min_amount_out
    ensures slippage.0 <= E12(), r.0 == cdiv(expected_amount_out.0 * (E12() - slippage.0), E12())
#fn math::types::sqrt_price::get_max_tick
#panicops
    ensures tick_spacing > 0, r == max_tick(tick_spacing as int), 0 <= r <= MAXT()
#start
    proof { lemma_max_tick(tick_spacing as int); }
#fn math::types::sqrt_price::get_min_tick
#panicops
    ensures tick_spacing > 0, r == -max_tick(tick_spacing as int)
#start
    proof { lemma_max_tick(tick_spacing as int); }
#fn math::types::sqrt_price::get_max_sqrt_price
    ensures r.0 == tick_price(max_tick(tick_spacing as int))
#fn math::types::sqrt_price::get_min_sqrt_price
    ensures r.0 == tick_price(-max_tick(tick_spacing as int))
#fn math::types::sqrt_price::check_tick_to_sqrt_price_relationship
#panicops
    ensures r is Ok ==> r->Ok_0 == price_in_tick(tick_index as int, tick_spacing as int, sqrt_price.0 as int)
