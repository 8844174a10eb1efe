#rem ---- entrypoints/query ----
#fn entrypoints::query::query_admin
    ensures r is Ok ==> deps.storage@.config is Some && r->Ok_0 == cfg(deps.storage@).admin
#fn entrypoints::query::get_protocol_fee
    ensures r is Ok ==> deps.storage@.config is Some && r->Ok_0 == cfg(deps.storage@).protocol_fee
#fn entrypoints::query::get_position
    ensures (r is Ok) == deps.storage@.positions.contains_key(poskey(owner_id@, index as int)), r is Ok ==> r->Ok_0 == deps.storage@.positions[poskey(owner_id@, index as int)]
#fn entrypoints::query::get_positions
    ensures r is Ok ==> positions_page(deps.storage@, owner_id@, limit, offset, r->Ok_0@)
#fn entrypoints::query::fee_tier_exist
    ensures r is Ok ==> deps.storage@.config is Some && r->Ok_0 == cfg(deps.storage@).fee_tiers@.contains(fee_tier)
#fn entrypoints::query::get_pool
    ensures r is Ok ==> got_pool(deps.storage@, token_0@, token_1@, fee_tier, r->Ok_0)
#aftercall new
    proof { assert(key_of(token_0@, token_1@, fee_tier, *pool_key)); }
#fn entrypoints::query::get_tick
    ensures (r is Ok) == deps.storage@.ticks.contains_key(tkey(key, index)), r is Ok ==> r->Ok_0 == deps.storage@.ticks[tkey(key, index)]
#fn entrypoints::query::is_tick_initialized
    ensures r is Ok ==> index as int % (key.fee_tier.tick_spacing as int) == 0 && r->Ok_0 == bit_set(deps.storage@, key, index as int, key.fee_tier.tick_spacing as int)
#fn entrypoints::query::get_pools
    ensures r is Ok ==> pools_page(deps.storage@, limit, start_after, r->Ok_0@)
#fn entrypoints::query::get_all_pools_for_pair
    ensures r is Ok ==> got_pair(deps.storage@, token_0@, token_1@, r->Ok_0@)
#afterlet pool_key
    let ghost k0 = pool_key;
    proof { assert(key_of(token_0@, token_1@, k0.fee_tier, k0)); }
#loop 0
    invariant __s0@ == cfg(deps.storage@).fee_tiers@, __i0 <= __s0@.len(), pool_key == (PoolKey { fee_tier: pool_key.fee_tier, ..k0 }), pools_kept(pools@, deps.storage@, k0, __s0@.take(__i0 as int))
    decreases __s0@.len() - __i0
#loopend 0
    proof { assert(__s0@.take(__i0 as int).drop_last() =~= __s0@.take(__i0 - 1)); }
#loopafter 0
    proof { assert(__s0@.take(__i0 as int) =~= __s0@); }
#fn entrypoints::query::get_fee_tiers
    ensures r is Ok ==> deps.storage@.config is Some && r->Ok_0@ == cfg(deps.storage@).fee_tiers@
#fn entrypoints::query::get_position_ticks
    ensures r is Ok ==> offset <= plen_of(deps.storage@, owner@) && pos_ticks_page(deps.storage@, owner@, offset as int, r->Ok_0@)
#loop 0
    invariant_except_break offset <= __i0 <= __e0, pos_ticks_are(ticks@, deps.storage@, owner@, offset as int, __i0 as int), __i0 < __e0 ==> ticks@.len() < 372, __i0 > offset ==> pos_ticks(deps.storage@, owner@, offset as int, __i0 - 1).len() < 372
    invariant __e0 == positions_length, positions_length == plen_of(deps.storage@, owner@), offset <= positions_length
    ensures pos_ticks_page(deps.storage@, owner@, offset as int, ticks@)
    decreases __e0 - __i0
#loopstart 0
    let ghost t0 = ticks@; let ghost n0 = __i0 as int;
#beforecall len@1
    proof { pos_ticks_next(t0, ticks@, deps.storage@, owner@, offset as int, n0); }
#fn entrypoints::query::get_user_position_amount
    ensures r is Ok ==> r->Ok_0 == plen_of(deps.storage@, owner@)
#fn entrypoints::query::get_tickmap
    ensures r is Ok ==> tick_map(deps.storage@, pool_key, lower_tick_index as int, upper_tick_index as int, x_to_y, r->Ok_0@)
#fn entrypoints::query::get_liquidity_ticks_amount
    ensures r is Ok ==> valid_tick(lower_tick as int, pool_key.fee_tier.tick_spacing as int) && valid_tick(upper_tick as int, pool_key.fee_tier.tick_spacing as int) && lower_tick <= upper_tick
        && r->Ok_0 == cnt(deps.storage@, pool_key, bidx(lower_tick as int, pool_key.fee_tier.tick_spacing as int), bidx(upper_tick as int, pool_key.fee_tier.tick_spacing as int) + 1)
#afterlet min_chunk
    let ghost L = bidx(lower_tick as int, tick_spacing as int); let ghost U = bidx(upper_tick as int, tick_spacing as int); let ghost st = deps.storage@;
    proof {
        lemma_div_is_ordered(lower_tick + MAXT(), upper_tick + MAXT(), tick_spacing as int);
        if max_chunk_index == min_chunk_index { lemma_select1(min_chunk, min_bit, max_bit); lemma_cnt_chunk(st, pool_key, min_chunk_index as int, min_bit as int, max_bit + 1); }
        lemma_select1(min_chunk, min_bit, 63); lemma_cnt_chunk(st, pool_key, min_chunk_index as int, min_bit as int, 64);
        lemma_cntb_bound(min_chunk, min_bit as int, 64);
        lemma_bidx_small(lower_tick as int, tick_spacing as int); lemma_bidx_small(upper_tick as int, tick_spacing as int);
    }
#afterlet max_chunk
    proof { lemma_select1(max_chunk, 0, max_bit); lemma_cnt_chunk(st, pool_key, max_chunk_index as int, 0, max_bit + 1); lemma_cntb_bound(max_chunk, 0, max_bit + 1); }
#loop 0
    invariant __e0 == max_chunk_index, min_chunk_index < __i0 <= __e0, st == deps.storage@, L == min_chunk_index * 64 + min_bit, U == max_chunk_index * 64 + max_bit, L <= U <= 500000, L >= 0, max_bit < 64, min_bit < 64,
        amount == cnt(st, pool_key, L, __i0 * 64) + cnt(st, pool_key, max_chunk_index * 64, U + 1)
    decreases __e0 - __i0
#loopstart 0
    proof { lemma_cnt_chunk(st, pool_key, __i0 as int, 0, 64); lemma_cnt_split(st, pool_key, L, __i0 * 64, __i0 * 64 + 64); lemma_ones(chunk_of(st, pool_key, __i0 as int), 64);
        lemma_cnt_bound(st, pool_key, L, __i0 * 64 + 64); lemma_cnt_bound(st, pool_key, max_chunk_index * 64, U + 1); }
#loopafter 0
    proof { lemma_cnt_split(st, pool_key, L, max_chunk_index * 64, U + 1); }
#fn entrypoints::query::get_liquidity_ticks
    ensures r is Ok ==> tick_indexes@.len() <= 780 && liq_ticks(deps.storage@, pool_key, r->Ok_0@, tick_indexes@, tick_indexes@.len() as int)
#loop 0
    invariant __s0@ == tick_indexes@, __i0 <= __s0@.len(), liq_ticks(deps.storage@, pool_key, liqudity_ticks@, tick_indexes@, __i0 as int)
    decreases __s0@.len() - __i0
#fn entrypoints::query::quote
    ensures r is Ok ==> quoted(deps.storage@, env, pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit, r->Ok_0)
#fn entrypoints::query::quote_route
    ensures r is Ok ==> rt_quote_ok(swaps@, deps.storage@, env.block.time.millis_spec(), amount_in.0 as int, r->Ok_0.0 as int)
#fn entrypoints::query::query_owner_of
#panicops
    ensures r is Ok ==> token_id@.len() >= 4 && deps.storage@.positions.contains_key(token_id@) && r->Ok_0.owner@ == owner_of(token_id@) && r->Ok_0.approvals@ == appr_shown(deps.storage@.positions[token_id@].approvals@, env.block, include_expired)
#fn entrypoints::query::query_nft_info
    ensures r is Ok ==> deps.storage@.positions.contains_key(token_id@) && r->Ok_0.extension == deps.storage@.positions[token_id@]
#fn entrypoints::query::query_all_nft_info
#panicops
    ensures r is Ok ==> token_id@.len() >= 4 && deps.storage@.positions.contains_key(token_id@) && r->Ok_0.access.owner@ == owner_of(token_id@) && r->Ok_0.access.approvals@ == appr_shown(deps.storage@.positions[token_id@].approvals@, env.block, include_expired)
        && r->Ok_0.info.extension == deps.storage@.positions[token_id@]

#fn entrypoints::query::query_tokens
    ensures r is Ok ==> r->Ok_0.tokens@.len() == page_len(deps.storage@, owner@, limit, start_after) && keys_from(r->Ok_0.tokens@, owner@, page_from(start_after))
#loop 0
    invariant __i0 <= __s0@.len(), __s0@.len() == page_len(deps.storage@, owner@, limit, start_after), keys_from(__s0@, owner@, page_from(start_after)), vec_pre(__r0@, __s0@, __i0 as int)
    decreases __s0@.len() - __i0
#fn entrypoints::query::query_all_tokens
    ensures r is Ok ==> tokens_page(deps.storage@, limit, start_after, r->Ok_0.tokens@)
#start
    let ghost lim0 = limit;
#loop 0
    invariant __i0 <= __s0@.len(), __t0 == page_limit(lim0), scan_ok(has_key(deps.storage@.positions), start_after, bytes_of(__s0@)), vec_pre(__r0@, __s0@, __i0 as int), __i0 <= __t0
    decreases __s0@.len() - __i0
#loopafter 0
    proof { let ks = bytes_of(__s0@); assert(bytes_of(__r0@) =~= ks.take(imin(page_limit(lim0), ks.len() as int))); assert(tokens_page(deps.storage@, lim0, start_after, __r0@)); }
#fn entrypoints::query::query_all_approvals
    ensures r is Ok ==> ops_page(deps.storage@, owner@, env.block, include_expired, start_after, limit, r->Ok_0.operators@)
#start
    let ghost lim0 = limit;
#afterlet start
    let ghost bd = start;
#loop 0
    invariant __i0 <= __s0@.len(), __t0 == page_limit(lim0), owner_raw@ == owner@, addr_bound(start_after, bd), scan_ok(has_op(deps.storage@, owner@), bd, raw_keys(__s0@)), 
        forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i]) is Ok && __s0@[i]->Ok_0.1 == deps.storage@.ops[(owner@, __s0@[i]->Ok_0.0@)],
        appr_are(__r0@, deps.storage@, owner@, raw_keys(__s0@), env.block, include_expired, __i0 as int, page_limit(lim0)), __r0@.len() <= __t0
    decreases __s0@.len() - __i0
#loopend 0
    proof { assert(raw_keys(__s0@)[__i0 - 1] == __s0@[__i0 - 1]->Ok_0.0@); }
#loopafter 0
    proof { lemma_ops_full2(deps.storage@, owner@, raw_keys(__s0@), env.block, include_expired, __i0 as int, __s0@.len() as int, page_limit(lim0)); assert(ops_page(deps.storage@, owner@, env.block, include_expired, start_after, lim0, __r0@)); }
#fn state::get_pools
    ensures r is Ok ==> pools_page(store@, limit, start_after, r->Ok_0@)
#start
    let ghost lim0 = limit;
#afterlet start
    let ghost bd = start;
#loop 0
    invariant __i0 <= __s0@.len(), __t0 == page_limit(lim0), bytes_opt(start_after, bd), scan_ok(has_key(store@.pools), bd, raw_keys(__s0@)), __i0 <= __t0,
        forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i]) is Ok && __s0@[i]->Ok_0.1 == store@.pools[__s0@[i]->Ok_0.0@],
        pools_listed(store@, __r0@, raw_keys(__s0@), __i0 as int)
    decreases __s0@.len() - __i0
#loopend 0
    proof { assert(raw_keys(__s0@)[__i0 - 1] == __s0@[__i0 - 1]->Ok_0.0@); }
#loopafter 0
    proof { assert(pools_page(store@, lim0, start_after, __r0@)); }
