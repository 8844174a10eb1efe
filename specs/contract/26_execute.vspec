#rem ---- entrypoints/execute ----
#fn entrypoints::execute::change_admin
    ensures r is Ok ==> admin_changed(old(deps).storage@, final(deps).storage@, info.sender@, new_admin@) && r->Ok_0.messages@.len() == 0
#fn entrypoints::execute::withdraw_protocol_fee
    ensures r is Ok ==> protocol_withdrawn(old(deps).storage@, final(deps).storage@, info.sender@, pool_key, mvs(r->Ok_0.messages@))
#end
    proof { if __ret is Ok { assert(mvs(__ret->Ok_0.messages@) =~= mvs(msgs@)); assert(mvs(Seq::<CosmosMsg>::empty()) =~= Seq::<MV>::empty()); } }
#fn entrypoints::execute::change_protocol_fee
    ensures r is Ok ==> protocol_fee_changed(old(deps).storage@, final(deps).storage@, info.sender@, protocol_fee) && r->Ok_0.messages@.len() == 0
#fn entrypoints::execute::change_fee_receiver
    ensures r is Ok ==> receiver_changed(old(deps).storage@, final(deps).storage@, info.sender@, pool_key, fee_receiver@) && r->Ok_0.messages@.len() == 0
#fn entrypoints::execute::create_position
    ensures r is Ok ==> pos_created(old(deps).storage@, final(deps).storage@, pos_arg(env, info, pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper), mvs(r->Ok_0.messages@))
#start
    let ghost s = deps.storage@;
    let ghost a = pos_arg(env, info, pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper);
#afterlet lower_tick
    let ghost s1 = deps.storage@; let ghost lo = lower_tick;
#afterlet upper_tick
    let ghost s2 = deps.storage@; let ghost up = upper_tick; let ghost p = pool;
#afterlet position
    let ghost p0 = choose|p0: Position| #[trigger] position_new(p0, a.k, lo.index, up.index, a.height) && modify_ok(p0, position, p, pool, lo, lower_tick, up, upper_tick, a.delta, true, a.now, a.k.fee_tier.tick_spacing as int);
#aftercall add_position
    let ghost s3 = deps.storage@;
#end
    proof { if __ret is Ok {
        lemma_mvs_cat(Seq::<CosmosMsg>::empty(), msgs@);
        assert(mvs(Seq::<CosmosMsg>::empty()) =~= Seq::<MV>::empty());
        let w = PosW { s1, s2, lo, up, lo2: lower_tick, up2: upper_tick, p, p2: pool, pos: p0, pos2: position, x: x.0 as int, y: y.0 as int };
        let q = poskey(a.who, plen_of(s2, a.who));
        assert(deps.storage@.positions =~= s2.positions.insert(q, position));
        if lo.index != up.index { if tkey(a.k, lo.index) == tkey(a.k, up.index) { lemma_tkey_inj(a.k, lo.index, a.k, up.index); }
        assert(deps.storage@.ticks =~= two_ticks(s2.ticks, a.k, lower_tick, upper_tick)); }
        assert(pos_created_w(s, deps.storage@, a, w, mvs(__ret->Ok_0.messages@)));
    } }
#fn entrypoints::execute::swap
    ensures r is Ok ==> swap_done(old(deps).storage@, final(deps).storage@, env, info, pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit, mvs(r->Ok_0.messages@))
#start
    proof { assert(mvs(Seq::<CosmosMsg>::empty()) =~= Seq::<MV>::empty()); }
#end
    proof { if __ret is Ok { assert(Seq::<CosmosMsg>::empty() + msgs@ =~= msgs@);
        let res = choose|res: CalculateSwapResult| #[trigger] swapped(sw_arg(old(deps).storage@, env, pool_key, x_to_y, by_amount_in, sqrt_price_limit), amount.0 as int, res, deps.storage@, info, env.contract.address@, Seq::<MV>::empty(), mvs(msgs@));
        assert(swapped(sw_arg(old(deps).storage@, env, pool_key, x_to_y, by_amount_in, sqrt_price_limit), amount.0 as int, res, deps.storage@, info, env.contract.address@, Seq::<MV>::empty(), mvs(__ret->Ok_0.messages@)));
    } }
#fn entrypoints::execute::swap_route
    ensures r is Ok ==> route_done(old(deps).storage@, final(deps).storage@, env, info, amount_in, expected_amount_out, slippage, swaps@, mvs(r->Ok_0.messages@))
#start
    proof { assert(mvs(Seq::<CosmosMsg>::empty()) =~= Seq::<MV>::empty()); }
#end
    proof { if __ret is Ok { assert(Seq::<CosmosMsg>::empty() + msgs@ =~= msgs@); } }
#fn entrypoints::execute::transfer_position
    ensures r is Ok ==> pos_moved(old(deps).storage@, final(deps).storage@, info.sender@, index as int, receiver@) && addr_ok(receiver@) && r->Ok_0.messages@.len() == 0
#fn entrypoints::execute::claim_fee
    ensures r is Ok ==> fee_claimed(old(deps).storage@, final(deps).storage@, info.sender@, index as int, env.block.time.millis_spec(), mvs(r->Ok_0.messages@))
#start
    let ghost s = deps.storage@;
#afterlet pool
    let ghost p = pool; let ghost lo = lower_tick; let ghost up = upper_tick; let ghost pos = position;
#afterlet x
    let ghost mid = choose|mid: Position| #[trigger] modify_ok(pos, mid, p, pool, lo, lower_tick, up, upper_tick, 0, true, current_timestamp, pos.pool_key.fee_tier.tick_spacing as int)
            && x == mid.tokens_owed_x && y == mid.tokens_owed_y && position == (Position { tokens_owed_x: TokenAmount(0), tokens_owed_y: TokenAmount(0), ..mid });
#end
    proof { if __ret is Ok {
        assert(Seq::<CosmosMsg>::empty() + msgs@ =~= msgs@); assert(mvs(Seq::<CosmosMsg>::empty()) =~= Seq::<MV>::empty());
        let w = PosW { s1: s, s2: s, lo, up, lo2: lower_tick, up2: upper_tick, p, p2: pool, pos, pos2: mid, x: x.0 as int, y: y.0 as int };
        let k = pos.pool_key;
        if lo.index != up.index { if tkey(k, lo.index) == tkey(k, up.index) { lemma_tkey_inj(k, lo.index, k, up.index); }
        assert(deps.storage@.ticks =~= two_ticks(s.ticks, k, upper_tick, lower_tick)); }
        assert(fee_claimed_w(s, deps.storage@, info.sender@, index as int, current_timestamp, w, mvs(__ret->Ok_0.messages@)));
    } }
#fn entrypoints::execute::remove_position
    ensures r is Ok ==> pos_closed(old(deps).storage@, final(deps).storage@, info.sender@, index as int, env.block.time.millis_spec(), mvs(r->Ok_0.messages@))
#start
    let ghost s = deps.storage@;
#afterlet pool
    let ghost p = pool; let ghost lo = lower_tick; let ghost up = upper_tick; let ghost pos = position;
#afterlet amount_x
    let ghost pos2 = position;
#afterif 1
    let ghost s1 = deps.storage@;
#afterif 2
    let ghost s2 = deps.storage@;
#end
    proof { if __ret is Ok {
        assert(Seq::<CosmosMsg>::empty() + msgs@ =~= msgs@); assert(mvs(Seq::<CosmosMsg>::empty()) =~= Seq::<MV>::empty());
        let w = PosW { s1, s2, lo, up, lo2: lower_tick, up2: upper_tick, p, p2: pool, pos, pos2, x: amount_x.0 as int, y: amount_y.0 as int };
        assert(pos_closed_w(s, deps.storage@, info.sender@, index as int, current_timestamp, w, mvs(__ret->Ok_0.messages@)));
    } }
#fn entrypoints::execute::create_pool
    ensures r is Ok ==> pool_opened(old(deps).storage@, final(deps).storage@, env.block.time.millis_spec(), token_0@, token_1@, fee_tier, init_sqrt_price, init_tick) && r->Ok_0.messages@.len() == 0
#end
    proof { if __ret is Ok { assert(pool_created(old(deps).storage@, deps.storage@, env.block.time.millis_spec(), token_0@, token_1@, fee_tier, init_sqrt_price, init_tick, pool_key)); } }
#fn entrypoints::execute::add_fee_tier
    ensures r is Ok ==> tier_added(old(deps).storage@, final(deps).storage@, info.sender@, fee_tier) && r->Ok_0.messages@.len() == 0
#fn entrypoints::execute::remove_fee_tier
    ensures r is Ok ==> tier_removed(old(deps).storage@, final(deps).storage@, info.sender@, fee_tier) && r->Ok_0.messages@.len() == 0
#loop 0
    invariant_except_break __r0 is None
    invariant __s0@ == config.fee_tiers@, __i0 <= __s0@.len()
    ensures __r0 is Some ==> __r0->Some_0 < config.fee_tiers@.len() && config.fee_tiers@[__r0->Some_0 as int] == fee_tier
    decreases __s0@.len() - __i0
#fn entrypoints::execute::handle_approve
    ensures r is Ok ==> appr_done(old(deps).storage@, final(deps).storage@, token_id@, info.sender@, env.block, spender@, true, expires) && r->Ok_0.messages@.len() == 0
#fn entrypoints::execute::handle_revoke
    ensures r is Ok ==> appr_done(old(deps).storage@, final(deps).storage@, token_id@, info.sender@, env.block, spender@, false, None) && r->Ok_0.messages@.len() == 0
#fn entrypoints::execute::handle_approve_all
    ensures r is Ok ==> !expires.vdef().expired(env.block) && r->Ok_0.messages@.len() == 0
        && final(deps).storage@ == (SV { ops: old(deps).storage@.ops.insert((info.sender@, operator@), expires.vdef()), ..old(deps).storage@ })
#fn entrypoints::execute::handle_revoke_all
    ensures r is Ok ==> r->Ok_0.messages@.len() == 0
        && final(deps).storage@ == (SV { ops: old(deps).storage@.ops.remove((info.sender@, operator@)), ..old(deps).storage@ })
#fn entrypoints::execute::handle_transfer_nft
    ensures r is Ok ==> nft_moved(old(deps).storage@, final(deps).storage@, token_id@, info.sender@, env.block, recipient@) && r->Ok_0.messages@.len() == 0
#fn entrypoints::execute::handle_burn
#panicops
    ensures r is Ok ==> nft_burned(old(deps).storage@, final(deps).storage@, token_id@, info.sender@, env.block, env.block.time.millis_spec(), mvs(r->Ok_0.messages@))
#end
    proof { if __ret is Ok { assert(token_id@ =~= poskey(owner_of(token_id@), index as int)); } }
#fn entrypoints::execute::handle_send_nft
    ensures r is Ok ==> nft_moved(old(deps).storage@, final(deps).storage@, token_id@, info.sender@, env.block, contract@) && nft_notice(r->Ok_0.messages@, contract@, token_id@, info.sender@, msg)
#fn entrypoints::execute::handle_mint
    ensures r is Ok ==> pos_created(old(deps).storage@, final(deps).storage@, pos_arg(env, info, pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper), mvs(r->Ok_0.messages@))
