#rem ---- storage ----
#skip storage::errors::SwapError::core::fmt::Display::fmt text only
#fn storage::fee_tier::FeeTier::new
    ensures (r is Ok) == (1 <= tick_spacing <= 100 && fee.0 <= E12()), r is Ok ==> r->Ok_0 == (FeeTier { fee, tick_spacing })
#start
    proof { assert(E12() == 1000000000000); }
#fn storage::fee_tier::new_fee_tier
    ensures (r is Ok) == (1 <= tick_spacing <= 100 && fee.0 <= E12()), r is Ok ==> r->Ok_0 == (FeeTier { fee, tick_spacing })
#fn custom::is_token_x
    ensures r is Ok, r->Ok_0 == seq_lt(token_candidate@, token_to_compare@)
#start
    proof { lemma_seq_total(token_candidate@, token_to_compare@); }
#fn storage::pool_key::PoolKey::new
    ensures
        (r is Ok) == (token_0@ != token_1@),
        r is Ok ==> seq_lt(r->Ok_0.token_x@, r->Ok_0.token_y@) && r->Ok_0.fee_tier == fee_tier,
        r is Ok ==> (r->Ok_0.token_x@ == token_0@ && r->Ok_0.token_y@ == token_1@) || (r->Ok_0.token_x@ == token_1@ && r->Ok_0.token_y@ == token_0@)
#start
    proof { lemma_seq_total(token_0@, token_1@); }
#fn storage::tick::LiquidityTick::cross
    ensures *final(self) == *old(self),
        r is Ok ==> final(pool).liquidity.0 == old(pool).liquidity.0 + cross_delta(*old(self), old(pool).current_tick_index as int),
        r is Ok ==> *final(pool) == (Pool { liquidity: final(pool).liquidity, last_timestamp: current_timestamp, ..*old(pool) })
#fn storage::pool::Pool::update_liquidity
    ensures
        r is Ok ==> lower_tick <= upper_tick,
        r is Ok ==> r->Ok_0.0.0 == amount_x_spec(old(self).current_tick_index as int, old(self).sqrt_price.0 as int, liquidity_delta.0 as int, liquidity_sign, upper_tick as int, lower_tick as int),
        r is Ok ==> r->Ok_0.1.0 == amount_y_spec(old(self).current_tick_index as int, old(self).sqrt_price.0 as int, liquidity_delta.0 as int, liquidity_sign, upper_tick as int, lower_tick as int),
        r is Ok ==> final(self).liquidity.0 == old(self).liquidity.0 + (if lower_tick <= old(self).current_tick_index < upper_tick { if liquidity_sign { liquidity_delta.0 as int } else { -(liquidity_delta.0 as int) } } else { 0 }),
        r is Ok ==> *final(self) == (Pool { liquidity: final(self).liquidity, ..*old(self) })
#fn storage::pool::Pool::update_tick
#panicops
    ensures
        r is Ok ==> update_tick_ok(*old(self), *final(self), *old(tick), *final(tick), result, swap_limit, remaining_amount.0 as int, by_amount_in, x_to_y, current_timestamp, fee_tier,
            r->Ok_0.0.0 as int, r->Ok_0.1.0 as int, r->Ok_0.2)
#fn collections::tickmap::tick_to_position
#start
    proof {
        assert(forall|x: u32| #[trigger] (x >> 6) == x / 64) by (bit_vector);
        assert(forall|x: u32| #[trigger] (x & 63) == x % 64) by (bit_vector);
        assert(forall|x: i32| x >= 0 ==> #[trigger] (x >> 6) == x / 64) by (bit_vector);
        assert(forall|x: i32| x >= 0 ==> #[trigger] (x & 63) == x % 64) by (bit_vector);
    }
#spec
    ensures -MAXT() <= tick <= MAXT(), tick_spacing > 0, tick as int % (tick_spacing as int) == 0, bidx(tick as int, tick_spacing as int) == r.0 * 64 + r.1, r.1 < 64
#panicops
#end
    proof { lemma_trem0(tick as int, tick_spacing as int); }
#fn collections::tickmap::get_bit_at_position
    requires position < 64
    ensures r == (if bit_of(value, position as int) { 1u64 } else { 0u64 })
#start
    proof { let p = position as u64; assert(position < 64 ==> (value >> position) & 1 == (value >> (position as u64)) & 1) by (bit_vector); assert((value >> p) & 1 == 0 || (value >> p) & 1 == 1) by (bit_vector); }
#fn collections::tickmap::flip_bit_at_position
    requires position < 64
    ensures forall|i: int| 0 <= i < 64 ==> #[trigger] bit_of(r, i) == (if i == position { !bit_of(value, i) } else { bit_of(value, i) })
#start
    proof {
        lemma_flip(value, position);
        assert(position < 64 ==> (value & (1u64 << position) == 0 ==> (value | (1u64 << position)) == (value ^ (1u64 << position)))) by (bit_vector);
        assert(position < 64 ==> (value & (1u64 << position) != 0 ==> (value & !(1u64 << position)) == (value ^ (1u64 << position)))) by (bit_vector);
        assert(position < 64 ==> (value >> position) & 1 == 0 ==> (value | (1u64 << position)) == (value ^ (1u64 << position))) by (bit_vector);
        assert(position < 64 ==> (value >> position) & 1 == 1 ==> (value & !(1u64 << position)) == (value ^ (1u64 << position))) by (bit_vector);
        assert((value >> position) & 1 == 0 || (value >> position) & 1 == 1) by (bit_vector);
    }
#fn collections::tickmap::get_search_limit
#panicops
    ensures tick_spacing > 0, r == search_limit(tick as int, tick_spacing as int, up)
#fn collections::tickmap::position_to_tick
#panicops
    ensures tick_spacing > 0, r == (chunk * 64 + bit) * tick_spacing - (MAXT() / (tick_spacing as int)) * tick_spacing
#end
    proof { if tick_spacing > 0 { lemma_pos_tick(chunk as int, bit as int, tick_spacing as int); } }
#fn collections::tickmap::Tickmap::next_initialized
#panicops
    ensures tick_spacing > 0, tick as int % (tick_spacing as int) == 0 ==> next_ok(tm(*self), nk(), tick as int, tick_spacing as int, r)
#start
    let ghost sp = tick_spacing as int; let ghost from = bidx(tick + sp, sp); let ghost lim = bidx(search_limit(tick as int, sp, true), sp);
#aftercall get_search_limit
    proof {
        if tick as int % sp == 0 { lemma_limits(tick as int, sp); lemma_next(tm(*self), nk(), tick as int, sp, from); lemma_early(tick as int, sp); }
    }
#aftercall tick_to_position@1
    proof { lemma_mod_add_multiples_vanish(tick as int, sp); lemma_limits(tick as int, sp); }
#loop 0
    invariant
        tick_spacing > 0, sp == tick_spacing as int, bit < 64, from == bidx(tick + sp, sp), from == bidx(tick as int, sp) + 1, lim >= from - 1, lim == bidx(limit as int, sp),
        tick as int % sp == 0, limit == search_limit(tick as int, sp, true), limit as int % sp == 0,
        lim == limiting_chunk * 64 + limiting_bit, limiting_bit < 64,
        from <= chunk * 64 + bit, -MAXT() <= tick + sp <= MAXT(),
        forall|n: int| from <= n < chunk * 64 + bit ==> !#[trigger] bit_idx(tm(*self), nk(), n)
    decreases 0x10000 - chunk
#loopstart 0
    let ghost bit0 = bit;
    proof { let v = chunk_of(tm(*self), nk(), chunk as int); lemma_shr(v, bit); if v >> bit == 0 && chunk == 0xffff { lemma_next(tm(*self), nk(), tick as int, sp, lim + 1); } }
#loop 1
    invariant
        bit < 64, bit0 <= bit, bit0 < 64, shifted != 0, shifted == chunk_of(tm(*self), nk(), chunk as int) >> bit,
        forall|i: int| bit0 <= i < bit ==> !#[trigger] bit_of(chunk_of(tm(*self), nk(), chunk as int), i)
    decreases 64 - bit
#loopstart 1
    proof { assert(shifted & 1 == shifted % 2) by (bit_vector); lemma_shr(chunk_of(tm(*self), nk(), chunk as int), bit); }
#loopafter 1
    proof {
        assert(shifted & 1 == shifted % 2) by (bit_vector);
        let n = chunk * 64 + bit;
        lemma_shr(chunk_of(tm(*self), nk(), chunk as int), bit);
        lemma_chunk(chunk as int, bit as int);
        assert forall|m: int| from <= m < n implies !#[trigger] bit_idx(tm(*self), nk(), m) by { if m >= chunk * 64 + bit0 { lemma_chunk(chunk as int, m - chunk * 64); } }
        lemma_next(tm(*self), nk(), tick as int, sp, n);
        lemma_next(tm(*self), nk(), tick as int, sp, lim + 1);
    }
#loopafter 0
    proof { lemma_next(tm(*self), nk(), tick as int, sp, lim + 1); }
#fn collections::tickmap::Tickmap::prev_initialized
#panicops
    ensures tick_spacing > 0, tick as int % (tick_spacing as int) == 0, prev_ok(tm(*self), nk(), tick as int, tick_spacing as int, r)
#start
    let ghost sp = tick_spacing as int; let ghost from = bidx(tick as int, sp); let ghost lim = bidx(search_limit(tick as int, sp, false), sp);
#aftercall tick_to_position@1
    proof { lemma_limits(tick as int, sp); }
#loop 0
    invariant
        tick_spacing > 0, sp == tick_spacing as int, bit < 64, from == bidx(tick as int, sp), lim == bidx(limit as int, sp), lim >= 0, lim <= from,
        tick as int % sp == 0, limit == search_limit(tick as int, sp, false), limit as int % sp == 0,
        lim == limiting_chunk * 64 + limiting_bit, limiting_bit < 64,
        chunk * 64 + bit <= from, -MAXT() <= tick <= MAXT(),
        forall|n: int| chunk * 64 + bit < n <= from ==> !#[trigger] bit_idx(tm(*self), nk(), n)
    decreases chunk
#loopstart 0
    let ghost bit0 = bit;
    proof { lemma_mask(bit); let v = chunk_of(tm(*self), nk(), chunk as int); if low_bits(v, bit + 1) == 0 { lemma_low_zero(v, bit + 1); if chunk == 0 { lemma_prev(tm(*self), nk(), tick as int, sp, lim - 1); } } }
#loop 1
    invariant
        bit <= bit0, bit0 < 64, mask == 1u128 << bit, value == chunk_of(tm(*self), nk(), chunk as int) as u128,
        low_bits(chunk_of(tm(*self), nk(), chunk as int), bit + 1) > 0,
        forall|i: int| bit < i <= bit0 ==> !#[trigger] bit_of(chunk_of(tm(*self), nk(), chunk as int), i)
    decreases bit
#loopstart 1
    proof { let v = chunk_of(tm(*self), nk(), chunk as int); lemma_and_mask(v, bit); lemma_low_step(v, bit as int); lemma_mask(bit); }
#loopafter 1
    proof {
        let n = chunk * 64 + bit;
        lemma_and_mask(chunk_of(tm(*self), nk(), chunk as int), bit);
        lemma_chunk(chunk as int, bit as int);
        assert forall|m: int| n < m <= from implies !#[trigger] bit_idx(tm(*self), nk(), m) by { if m <= chunk * 64 + bit0 { lemma_chunk(chunk as int, m - chunk * 64); } }
        lemma_prev(tm(*self), nk(), tick as int, sp, n);
        lemma_prev(tm(*self), nk(), tick as int, sp, lim - 1);
    }
#loopafter 0
    proof { lemma_prev(tm(*self), nk(), tick as int, sp, lim - 1); }
#fn collections::tickmap::tick_to_position_js
#panicops
    ensures r is Ok ==> -MAXT() <= tick <= MAXT() && tick_spacing > 0 && tick as int % (tick_spacing as int) == 0 && bidx(tick as int, tick_spacing as int) == r->Ok_0.chunk * 64 + r->Ok_0.bit && r->Ok_0.bit < 64,
        r is Err ==> !(-MAXT() <= tick <= MAXT()) || trem(tick as int, tick_spacing as int) != 0
#end
    proof { if tick_spacing > 0 && trem(tick as int, tick_spacing as int) == 0 && -MAXT() <= tick <= MAXT() { lemma_trem0(tick as int, tick_spacing as int); } }
#fn collections::tickmap::Tickmap::get
    ensures tick_spacing > 0, tick as int % (tick_spacing as int) == 0, r == bit_set(tm(*self), nk(), tick as int, tick_spacing as int)
#fn collections::tickmap::Tickmap::get_closer_limit
    ensures r is Ok ==> tick_spacing > 0,
        r is Ok && current_tick as int % (tick_spacing as int) == 0 ==> closer_ok(tm(*self), nk(), sqrt_price_limit.0 as int, x_to_y, current_tick as int, tick_spacing as int, r->Ok_0.0.0 as int, r->Ok_0.1),
        r is Ok && r->Ok_0.1 is None ==> r->Ok_0.0 == sqrt_price_limit,
        r is Ok && r->Ok_0.1 is Some ==> r->Ok_0.0.0 == tick_price(r->Ok_0.1->Some_0.0 as int) && before_limit(r->Ok_0.1->Some_0.0 as int, x_to_y, sqrt_price_limit.0 as int) && -MAXT() <= r->Ok_0.1->Some_0.0 <= MAXT()
#aftercall calculate_sqrt_price@1
    proof { reveal(closer_ok); if current_tick as int % (tick_spacing as int) == 0 && current_tick != index { assert(search_ok(tm(*self), nk(), current_tick as int, tick_spacing as int, x_to_y, index, true) || search_ok(tm(*self), nk(), current_tick as int, tick_spacing as int, x_to_y, index, false)); } else if current_tick as int % (tick_spacing as int) == 0 && x_to_y { let b = search_ok(tm(*self), nk(), current_tick as int, tick_spacing as int, x_to_y, index, true); } }
#aftercall calculate_sqrt_price@2
    proof { reveal(closer_ok); if current_tick as int % (tick_spacing as int) == 0 && current_tick != index { assert(search_ok(tm(*self), nk(), current_tick as int, tick_spacing as int, x_to_y, index, true) || search_ok(tm(*self), nk(), current_tick as int, tick_spacing as int, x_to_y, index, false)); } else if current_tick as int % (tick_spacing as int) == 0 && x_to_y { let b = search_ok(tm(*self), nk(), current_tick as int, tick_spacing as int, x_to_y, index, true); } }
