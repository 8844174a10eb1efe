#rem ---- entrypoints/common ----
#mod entrypoints::common
pub trait TimeStampExt { spec fn millis_spec(&self) -> u64; fn millis(&self) -> (r: u64) ensures r == self.millis_spec(); }
#impl *::TimeStampExt
    open spec fn millis_spec(&self) -> u64 { self.ns / 1_000_000 }
#fn entrypoints::common::create_tick
    ensures r is Ok ==> tick_created(old(store)@, final(store)@, *pool_key, index, current_timestamp, r->Ok_0)
#fn entrypoints::common::remove_tick_and_flip_bitmap
    ensures r is Ok ==> tick.liquidity_gross.0 == 0 && tick_removed(old(storage)@, final(storage)@, *key, tick.index)
#fn entrypoints::common::calculate_swap #[verifier::exec_allows_no_decreases_clause]
    ensures r is Ok ==> sw_ok(SwArg { s: store@, k: *pool_key, now: current_timestamp, xy: x_to_y, by_in: by_amount_in, limit: sqrt_price_limit }, amount.0 as int, r->Ok_0)
        && sw_facts(SwArg { s: store@, k: *pool_key, now: current_timestamp, xy: x_to_y, by_in: by_amount_in, limit: sqrt_price_limit }, amount.0 as int, r->Ok_0)
#start
    let ghost a = SwArg { s: store@, k: *pool_key, now: current_timestamp, xy: x_to_y, by_in: by_amount_in, limit: sqrt_price_limit };
    let ghost mut tr = Seq::<SwRec>::empty();
    let ghost amt = amount.0 as int;
#loop 0
    invariant a == (SwArg { s: store@, k: *pool_key, now: current_timestamp, xy: x_to_y, by_in: by_amount_in, limit: sqrt_price_limit }),
        tick_limit == (if x_to_y { -max_tick(sw_sp(a)) } else { max_tick(sw_sp(a)) }),
        sw_run(a, tr, sw_start(a, amt), SwSt { pool, rem: remaining_amount.0 as int, tin: total_amount_in.0 as int, tout: total_amount_out.0 as int, fee: event_fee_amount.0 as int, ticks: ticks@ })
#loopstart 0
    let ghost pre = SwSt { pool, rem: remaining_amount.0 as int, tin: total_amount_in.0 as int, tout: total_amount_out.0 as int, fee: event_fee_amount.0 as int, ticks: ticks@ };
#aftercall compute_swap_step
    let ghost res = result;
#aftercall add_fee
    let ghost mid = pool;
#afterlet tick_update
    let ghost tu0 = tick_update;
#aftercall update_tick
    let ghost tu1 = tick_update;
#loopend 0
    proof {
        let rec = SwRec { pre, lim: swap_limit, lt: limiting_tick, res, mid, tu0, tu1, added: amount_to_add.0 as int, crossed: has_crossed,
            post: SwSt { pool, rem: remaining_amount.0 as int, tin: total_amount_in.0 as int, tout: total_amount_out.0 as int, fee: event_fee_amount.0 as int, ticks: ticks@ } };
        assert(sw_step(a, rec));
        lemma_sw_push(a, tr, sw_start(a, amt), rec);
        tr = tr.push(rec);
    }
#end
    proof { if __ret is Ok { assert(sw_done(a, amt, tr, __ret->Ok_0)); lemma_sw_facts(a, amt, tr, __ret->Ok_0); } }
#fn entrypoints::common::swap_internal
    ensures r is Ok ==> swapped(SwArg { s: old(store)@, k: *pool_key, now: current_timestamp, xy: x_to_y, by_in: by_amount_in, limit: sqrt_price_limit }, amount.0 as int, r->Ok_0, final(store)@, *info, contract_address@, mvs(old(msgs)@), mvs(final(msgs)@))
#loopbefore 0
    let ghost s0 = store@;
#loop 0
    invariant store@ == (SV { ticks: ticks_written(s0.ticks, *pool_key, calculate_swap_result.ticks@.take(__i0 as int)), ..s0 }), __s0@ == calculate_swap_result.ticks@, __i0 <= __s0@.len()
    decreases __s0@.len() - __i0
#loopend 0
    proof { assert(calculate_swap_result.ticks@.take(__i0 as int).drop_last() =~= calculate_swap_result.ticks@.take(__i0 - 1)); }
#loopafter 0
    proof { assert(calculate_swap_result.ticks@.take(__i0 as int) =~= calculate_swap_result.ticks@); }
#end
    proof { if __ret is Ok { assert(mvs(msgs@) =~= mvs(old(msgs)@) + sw_msgs(*pool_key, x_to_y, __ret->Ok_0, *info, contract_address@)); } }
#fn entrypoints::common::swap_route_internal
    ensures r is Ok ==> exists|st: RtSt| st.s == final(store)@ && st.m == mvs(final(msgs)@) && st.amt == r->Ok_0.0
        && #[trigger] rt_ok(swaps@, env.block.time.millis_spec(), info.sender@, env.contract.address@, RtSt { s: old(store)@, amt: amount_in.0 as int, funds: info.funds@, m: mvs(old(msgs)@) }, st)
#start
    let ghost st0 = RtSt { s: store@, amt: amount_in.0 as int, funds: info.funds@, m: mvs(msgs@) };
    let ghost mut tr = Seq::<RtRec>::empty();
    let ghost sender = info.sender@; let ghost hs = swaps@;
#loop 0
    invariant rt_run(hs.take(__i0 as int), tr, current_timestamp, sender, env.contract.address@, st0, RtSt { s: store@, amt: next_swap_amount.0 as int, funds: info.funds@, m: mvs(msgs@) }),
        __s0@ == hs, __i0 <= __s0@.len(), info.sender@ == sender
    decreases __s0@.len() - __i0
#loopstart 0
    let ghost pre = RtSt { s: store@, amt: next_swap_amount.0 as int, funds: info.funds@, m: mvs(msgs@) }; let ghost inf = info;
#loop 1
    invariant coins_kept(__r1@, info.funds@, __i1 as int, token_in@), __s1@ == info.funds@, __i1 <= __s1@.len()
    decreases __s1@.len() - __i1
#loopend 1
    proof { assert(info.funds@.take(__i1 as int).drop_last() =~= info.funds@.take(__i1 - 1)); }
#loopafter 1
    proof { assert(info.funds@.take(__i1 as int) =~= info.funds@); }
#loopend 0
    proof {
        let post = RtSt { s: store@, amt: next_swap_amount.0 as int, funds: info.funds@, m: mvs(msgs@) };
        let res = choose|res: CalculateSwapResult| swapped(rt_arg(pre.s, *swap_hop, current_timestamp), pre.amt, res, post.s, inf, env.contract.address@, pre.m, post.m) && res.amount_out == next_swap_amount;
        let rec = RtRec { pre, post, res, info: inf };
        assert(rt_hop(hs[__i0 - 1], rec, current_timestamp, sender, env.contract.address@));
        lemma_rt_push(hs, __i0 - 1, tr, rec, current_timestamp, sender, env.contract.address@, st0);
        tr = tr.push(rec);
    }
#end
    proof { assert(hs.take(hs.len() as int) =~= hs); assert(rt_run(hs, tr, current_timestamp, sender, env.contract.address@, st0, RtSt { s: store@, amt: next_swap_amount.0 as int, funds: info.funds@, m: mvs(msgs@) })); assert(rt_ok(swaps@, env.block.time.millis_spec(), sender, env.contract.address@, st0, RtSt { s: store@, amt: next_swap_amount.0 as int, funds: info.funds@, m: mvs(msgs@) })); }
#fn entrypoints::common::route
    ensures r is Ok ==> rt_quote_ok(swaps@, store@, env.block.time.millis_spec(), amount_in.0 as int, r->Ok_0.0 as int)
#start
    let ghost mut tr = Seq::<(int, CalculateSwapResult)>::empty();
    let ghost hs = swaps@;
#loop 0
    invariant rt_quote(hs.take(__i0 as int), tr, store@, current_timestamp, amount_in.0 as int, next_swap_amount.0 as int), __s0@ == hs, __i0 <= __s0@.len()
    decreases __s0@.len() - __i0
#loopstart 0
    let ghost x = next_swap_amount.0 as int;
#loopend 0
    proof {
        let a = rt_arg(store@, *swap_hop, current_timestamp);
        assert(a.limit == sqrt_price_limit);
        let res = choose|res: CalculateSwapResult| sw_ok(a, x, res) && #[trigger] sw_facts(a, x, res) && res.amount_out == next_swap_amount;
        lemma_quote_push(hs, __i0 - 1, tr, res, store@, current_timestamp, amount_in.0 as int, x);
        tr = tr.push((x, res));
    }
#end
    proof { assert(hs.take(hs.len() as int) =~= hs); assert(rt_quote(hs, tr, store@, current_timestamp, amount_in.0 as int, next_swap_amount.0 as int)); }
#fn entrypoints::common::check_can_approve
    ensures (r is Ok) ==> can_approve(deps.storage@, owner_raw@, info.sender@, env.block)
#fn entrypoints::common::check_can_send
    ensures (r is Ok) ==> can_send(deps.storage@, owner_raw@, info.sender@, env.block, *pos)
#loop 0
    invariant_except_break !__r0
    invariant __s0@ == pos.approvals@, __i0 <= __s0@.len()
    ensures __r0 ==> __i0 < pos.approvals@.len() && pos.approvals@[__i0 as int].spender@ == info.sender@ && !pos.approvals@[__i0 as int].expires.expired(env.block)
    decreases __s0@.len() - __i0
#fn entrypoints::common::update_approvals
#panicops
    ensures r is Ok ==> approvals_updated(old(deps).storage@, final(deps).storage@, token_id@, info.sender@, env.block, spender@, add, expires, r->Ok_0), final(deps).api == old(deps).api
#loop 0
    invariant appr_kept(__r0@, __s0@, __i0 as int, spender@), __s0@ == pos.approvals@, __i0 <= __s0@.len()
    decreases __s0@.len() - __i0
#loopend 0
    proof { assert(pos.approvals@.take(__i0 as int).drop_last() =~= pos.approvals@.take(__i0 - 1)); }
#loopafter 0
    proof { assert(pos.approvals@.take(__i0 as int) =~= pos.approvals@); }
#end
    proof { if __ret is Ok && add { assert(__ret->Ok_0.approvals@.drop_last() =~= appr_drop(old(deps).storage@.positions[token_id@].approvals@, spender@)); } }
#fn entrypoints::common::transfer_nft
#panicops
    ensures final(deps).api == old(deps).api, r is Ok ==> token_id@.len() >= 4 && exists|i: u32| token_id@ == poskey(owner_of(token_id@), i as int) && old(deps).storage@.positions.contains_key(token_id@)
        && can_send(old(deps).storage@, owner_of(token_id@), info.sender@, env.block, old(deps).storage@.positions[token_id@])
        && #[trigger] pos_moved(old(deps).storage@, final(deps).storage@, owner_of(token_id@), i as int, recipient@)
#aftercall remove_position
    let ghost m = deps.storage@;
#end
    proof { if __ret is Ok { assert(token_id@ =~= poskey(owner_of(token_id@), index as int)); assert(pos_added(m, deps.storage@, recipient@, pos)); assert(pos_moved(old(deps).storage@, deps.storage@, owner_of(token_id@), index as int, recipient@)); } }
#fn entrypoints::common::humanize_approvals
    ensures r@ == appr_shown(pos.approvals@, *block, include_expired)
#loop 0
    invariant appr_kept2(__r0@, pos.approvals@, __i0 as int, *block, include_expired), __s0@ == pos.approvals@, __i0 <= __s0@.len()
    decreases __s0@.len() - __i0
#loopend 0
    proof { assert(pos.approvals@.take(__i0 as int).drop_last() =~= pos.approvals@.take(__i0 - 1)); }
#loopafter 0
    proof { assert(pos.approvals@.take(__i0 as int) =~= pos.approvals@); }
#fn entrypoints::common::tickmap_slice
    ensures r@ == chunks_of(store@, *pool_key, range@)
#loop 0
    invariant_except_break tickmap_slice@ == chunks_of(store@, *pool_key, range@.take(__i0 as int)), tickmap_slice@.len() < 1638, __i0 == __s0@.len() ==> tickmap_slice@ == chunks_of(store@, *pool_key, range@)
    invariant __s0@ == range@, __i0 <= __s0@.len()
    ensures tickmap_slice@ == chunks_of(store@, *pool_key, range@)
    decreases __s0@.len() - __i0
#loopbefore 0
    proof { assert(range@.take(0) =~= Seq::<u16>::empty()); if range@.len() == 0 { assert(range@ =~= Seq::<u16>::empty()); } }
#loopstart 0
    proof { let tk = range@.take(__i0 + 1); if __i0 + 1 == range@.len() { assert(tk =~= range@); } assert(tk.drop_last() =~= range@.take(__i0 as int)); assert(tk.last() == range@[__i0 as int]);
        if chunks_of(store@, *pool_key, tk).len() >= 1638 { lemma_chunks_full(store@, *pool_key, range@, __i0 + 1); } }
