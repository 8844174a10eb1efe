#rem ---- the swap simulation ----
#fn swap::simulate_swap #[verifier::exec_allows_no_decreases_clause]
    ensures r is Ok ==> exists|ts: Vec<LiquidityTick>| #[trigger] js_is(ticks, ts) && sw_ok(SwArg { t: tickmap, ft: fee_tier, p: pool, ticks: ts@, xy: x_to_y, by_in: by_amount_in, limit: sqrt_price_limit }, amount.0 as int, r->Ok_0)
#start
    let ghost js = ticks; let ghost p0 = pool;
    let ghost mut tr = Seq::<SwRec>::empty();
    let ghost amt = amount.0 as int;
#afterlet ticks
    let ghost a = SwArg { t: tickmap, ft: fee_tier, p: p0, ticks: ticks@, xy: x_to_y, by_in: by_amount_in, limit: sqrt_price_limit };
#loop 0
    invariant_except_break !global_insufficient_liquidity, !state_outdated, !max_ticks_crossed,
        sw_run(a, tr, sw_start(a, amt), SwSt { pool, rem: remaining_amount.0 as int, tin: total_amount_in.0 as int, tout: total_amount_out.0 as int, fee: total_fee_amount.0 as int, ticks: crossed_ticks@ })
    invariant a == (SwArg { t: tickmap, ft: fee_tier, p: p0, ticks: ticks@, xy: x_to_y, by_in: by_amount_in, limit: sqrt_price_limit }),
        tick_limit == (if x_to_y { -max_tick(sw_sp(a)) } else { max_tick(sw_sp(a)) })
    ensures !global_insufficient_liquidity && !state_outdated && !max_ticks_crossed ==> remaining_amount.0 == 0 &&
        sw_run(a, tr, sw_start(a, amt), SwSt { pool, rem: remaining_amount.0 as int, tin: total_amount_in.0 as int, tout: total_amount_out.0 as int, fee: total_fee_amount.0 as int, ticks: crossed_ticks@ })
#loopstart 0
    let ghost pre = SwSt { pool, rem: remaining_amount.0 as int, tin: total_amount_in.0 as int, tout: total_amount_out.0 as int, fee: total_fee_amount.0 as int, ticks: crossed_ticks@ };
#aftercall compute_swap_step
    let ghost res = result;
#loop 1
    invariant_except_break __r1 is None
    invariant __s1@ == ticks@, __i1 <= __s1@.len(), forall|m: int| 0 <= m < __i1 ==> (#[trigger] ticks@[m]).index != tick_index
    ensures __r1 is Some ==> tick_in(ticks@, tick_index, *__r1->Some_0)
    decreases __s1@.len() - __i1
#afterlet tick_update
    let ghost tu0 = tick_update;
#loopend 0
    proof {
        let rec = SwRec { pre, lim: swap_limit, lt: limiting_tick, res, tu: tu0, added: amount_to_add.0 as int, crossed: has_crossed,
            post: SwSt { pool, rem: remaining_amount.0 as int, tin: total_amount_in.0 as int, tout: total_amount_out.0 as int, fee: total_fee_amount.0 as int, ticks: crossed_ticks@ } };
        assert(sw_step(a, rec));
        lemma_sw_push(a, tr, sw_start(a, amt), rec);
        tr = tr.push(rec);
    }
#end
    proof { if __ret is Ok { let r = __ret->Ok_0; assert(js_is(js, ticks));
        if !r.global_insufficient_liquidity && !r.state_outdated && !r.max_ticks_crossed { assert(sw_at(a, tr, amt, pool, r.amount_in.0 as int, r.amount_out.0 as int, r.fee.0 as int, r.crossed_ticks@)); } } }
