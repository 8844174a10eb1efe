#rem ---- storage keys ----
#fn storage::fee_tier::FeeTier::new
    ensures (r is Ok) == (1 <= tick_spacing <= 100 && fee.0 <= E12()), r is Ok ==> r->Ok_0 == (FeeTier { fee, tick_spacing })
#start
    proof { assert(E12() == 1000000000000); }
#fn storage::fee_tier::FeeTier::key
    ensures r@ == fkey(*self)
#end
    proof { assert(__ret@ =~= fkey(*self)); }
#fn storage::fee_tier::FeeTier::from_bytes
    ensures r is Ok ==> raw_key@ == fkey(r->Ok_0)
#end
    proof { if __ret is Ok { assert(raw_key@ =~= raw_key@.subrange(0, 8) + raw_key@.subrange(8, 10)); } }
#fn storage::pool_key::PoolKey::key
    ensures r@ == pkey(*self), pk_ok(*self)
#end
    proof { assert(__ret@ =~= pkey(*self)); }
#fn storage::pool_key::PoolKey::from_bytes
#panicops
    ensures r is Ok ==> pkey(r->Ok_0) == raw_key@ && pk_ok(r->Ok_0)
#loopstart 0
    let ghost index0 = index; let ghost n0 = namespaces@;
#loopend 0
    proof {
        let x = raw_key@.subrange(index0 + 2, index as int);
        lemma_be_len(x.len() as int, 2);
        assert(namespaces@.drop_last() =~= n0);
        assert(raw_key@.subrange(0, index as int) =~= raw_key@.subrange(0, index0 as int) + seq![raw_key@[index0 as int], raw_key@[index0 + 1]] + x);
        assert(cat_lp(namespaces@) =~= raw_key@.subrange(0, index as int));
    }
#loopafter 0
    proof {
        assert(raw_key@.subrange(0, index as int) =~= raw_key@);
        if namespaces@.len() == 3 { lemma_cat3(namespaces@); }
    }
#loop 0
    invariant index <= raw_key@.len(), cat_lp(namespaces@) == raw_key@.subrange(0, index as int), forall|i: int| 0 <= i < namespaces@.len() ==> (#[trigger] namespaces@[i])@.len() < 0x10000
    decreases raw_key@.len() - index
#fn storage::pool_key::PoolKey::new
    ensures
        (r is Ok) == (token_0@ != token_1@),
        r is Ok ==> seq_lt(r->Ok_0.token_x@, r->Ok_0.token_y@) && r->Ok_0.fee_tier == fee_tier,
        r is Ok ==> (r->Ok_0.token_x@ == token_0@ && r->Ok_0.token_y@ == token_1@) || (r->Ok_0.token_x@ == token_1@ && r->Ok_0.token_y@ == token_0@)
#start
    proof { lemma_seq_total(token_0@, token_1@); }
#fn state::tick_key
    ensures r@ == tkey(*pool_key, index), pk_ok(*pool_key)
#end
    proof { assert(__ret@ =~= tkey(*pool_key, index)); }
#fn state::position_key
    ensures r@ == poskey(account_id@, index as int)
#end
    proof { assert(__ret@ =~= poskey(account_id@, index as int)); }
#fn state::bitmap_key
    ensures r@ == bkey(chunk as int, *pool_key), pk_ok(*pool_key)
#end
    proof { assert(__ret@ =~= bkey(chunk as int, *pool_key)); }
#mod state
pub const CONFIG: HConfig = HConfig {};
pub const POOLS: HPools = HPools {};
pub const TICKS: HTicks = HTicks {};
pub const POSITIONS: HPositions = HPositions {};
pub const POSITIONS_LENGTH: HPlen = HPlen {};
pub const BITMAP: HBitmap = HBitmap {};
pub const OPERATORS: HOps = HOps {};
#fn state::get_pool
    ensures pk_ok(*pool_key), (r is Ok) == store@.pools.contains_key(pkey(*pool_key)), r is Ok ==> r->Ok_0 == store@.pools[pkey(*pool_key)]
#fn state::add_tick
    ensures pk_ok(*pool_key), r is Ok ==> !old(store)@.ticks.contains_key(tkey(*pool_key, index))
        && final(store)@ == (SV { ticks: old(store)@.ticks.insert(tkey(*pool_key, index), *tick), ..old(store)@ })
#fn state::update_tick
    ensures pk_ok(*pool_key), r is Ok ==> old(store)@.ticks.contains_key(tkey(*pool_key, index))
        && final(store)@ == (SV { ticks: old(store)@.ticks.insert(tkey(*pool_key, index), *tick), ..old(store)@ })
#fn state::remove_tick
    ensures pk_ok(*pool_key), r is Ok ==> old(store)@.ticks.contains_key(tkey(*pool_key, index))
        && final(store)@ == (SV { ticks: old(store)@.ticks.remove(tkey(*pool_key, index)), ..old(store)@ })
#fn state::get_tick
    ensures pk_ok(*pool_key), (r is Ok) == store@.ticks.contains_key(tkey(*pool_key, index)), r is Ok ==> r->Ok_0 == store@.ticks[tkey(*pool_key, index)]
#fn state::get_position_length
    ensures r == plen_of(store@, account_id@)
#fn state::add_position
#panicops
    ensures r is Ok ==> pos_added(old(store)@, final(store)@, account_id@, *position)
#fn state::update_position
    ensures r is Ok ==> index < plen_of(old(store)@, account_id@)
        && final(store)@ == (SV { positions: old(store)@.positions.insert(poskey(account_id@, index as int), *position), ..old(store)@ })
#fn state::remove_position
#panicops
    ensures r is Ok ==> pos_removed(old(store)@, final(store)@, account_id@, index as int, r->Ok_0)
#end
    proof { if __ret is Ok {
        let s = old(store)@; let n = plen_of(s, account_id@) - 1;
        if index < n { if poskey(account_id@, index as int) == poskey(account_id@, n) { lemma_poskey_inj(account_id@, index as int, account_id@, n); } assert(store@.positions =~= s.positions.remove(poskey(account_id@, n)).insert(poskey(account_id@, index as int), s.positions[poskey(account_id@, n)])); }
        else { assert(store@.positions =~= s.positions.remove(poskey(account_id@, index as int))); }
    } }
#fn state::get_position
    ensures (r is Ok) == store@.positions.contains_key(poskey(account_id@, index as int)), r is Ok ==> r->Ok_0 == store@.positions[poskey(account_id@, index as int)]
#fn state::get_position_by_key
    ensures (r is Ok) == store@.positions.contains_key(db_key@), r is Ok ==> r->Ok_0 == store@.positions[db_key@]
#rem ---- tick bitmap ----
#fn storage::tickmap::tick_to_position
#start
    proof {
        assert(forall|x: u32| #[trigger] (x >> 6) == x / 64) by (bit_vector);
        assert(forall|x: u32| #[trigger] (x & 63) == x % 64) by (bit_vector);
        assert(forall|x: i32| x >= 0 ==> #[trigger] (x >> 6) == x / 64) by (bit_vector);
        assert(forall|x: i32| x >= 0 ==> #[trigger] (x & 63) == x % 64) by (bit_vector);
    }
#spec
    ensures -MAXT() <= tick <= MAXT(), tick_spacing > 0, tick as int % (tick_spacing as int) == 0, bidx(tick as int, tick_spacing as int) == r.0 * 64 + r.1, r.1 < 64
#panicops
#end
    proof { lemma_trem0(tick as int, tick_spacing as int); }
#fn storage::tickmap::get_bit_at_position
    requires position < 64
    ensures r == (if bit_of(value, position as int) { 1u64 } else { 0u64 })
#start
    proof { let p = position as u64; assert(position < 64 ==> (value >> position) & 1 == (value >> (position as u64)) & 1) by (bit_vector); assert((value >> p) & 1 == 0 || (value >> p) & 1 == 1) by (bit_vector); }
#fn storage::tickmap::flip_bit_at_position
    requires position < 64
    ensures forall|i: int| 0 <= i < 64 ==> #[trigger] bit_of(r, i) == (if i == position { !bit_of(value, i) } else { bit_of(value, i) })
#start
    proof {
        lemma_flip(value, position);
        assert(position < 64 ==> (value & (1u64 << position) == 0 ==> (value | (1u64 << position)) == (value ^ (1u64 << position)))) by (bit_vector);
        assert(position < 64 ==> (value & (1u64 << position) != 0 ==> (value & !(1u64 << position)) == (value ^ (1u64 << position)))) by (bit_vector);
        assert(position < 64 ==> (value >> position) & 1 == 0 ==> (value | (1u64 << position)) == (value ^ (1u64 << position))) by (bit_vector);
        assert(position < 64 ==> (value >> position) & 1 == 1 ==> (value & !(1u64 << position)) == (value ^ (1u64 << position))) by (bit_vector);
        assert((value >> position) & 1 == 0 || (value >> position) & 1 == 1) by (bit_vector);
    }
#fn storage::tickmap::get_search_limit
#panicops
    ensures tick_spacing > 0, r == search_limit(tick as int, tick_spacing as int, up)
#fn storage::tickmap::position_to_tick
#panicops
    ensures tick_spacing > 0, r == (chunk * 64 + bit) * tick_spacing - (MAXT() / (tick_spacing as int)) * tick_spacing
#end
    proof { if tick_spacing > 0 { lemma_pos_tick(chunk as int, bit as int, tick_spacing as int); } }
#fn storage::tickmap::get_max_chunk
#panicops
    ensures tick_spacing > 0, r == bidx((MAXT() / (tick_spacing as int)) * tick_spacing, tick_spacing as int) / 64
#fn storage::tickmap::get_min_chunk
#panicops
    ensures tick_spacing > 0, r == 0
#end
    proof { lemma_min_chunk(tick_spacing as int); }
#fn state::next_initialized
#panicops
    ensures pk_ok(*pool_key) || r is None, tick_spacing > 0, tick as int % (tick_spacing as int) == 0 ==> next_ok(store@, *pool_key, tick as int, tick_spacing as int, r)
#start
    let ghost sp = tick_spacing as int; let ghost from = bidx(tick + sp, sp); let ghost lim = bidx(search_limit(tick as int, sp, true), sp);
#aftercall get_search_limit
    proof {
        if tick as int % sp == 0 { lemma_limits(tick as int, sp); lemma_next(store@, *pool_key, tick as int, sp, from); lemma_early(tick as int, sp); }
    }
#aftercall tick_to_position@1
    proof { lemma_mod_add_multiples_vanish(tick as int, sp); lemma_limits(tick as int, sp); }
#loop 0
    invariant
        tick_spacing > 0, sp == tick_spacing as int, bit < 64, from == bidx(tick + sp, sp), from == bidx(tick as int, sp) + 1, lim >= from - 1, lim == bidx(limit as int, sp),
        tick as int % sp == 0, limit == search_limit(tick as int, sp, true), limit as int % sp == 0,
        lim == limiting_chunk * 64 + limiting_bit, limiting_bit < 64,
        from <= chunk * 64 + bit, -MAXT() <= tick + sp <= MAXT(),
        forall|n: int| from <= n < chunk * 64 + bit ==> !#[trigger] bit_idx(store@, *pool_key, n)
    decreases 0x10000 - chunk
#loopstart 0
    let ghost bit0 = bit;
    proof { let v = chunk_of(store@, *pool_key, chunk as int); lemma_shr(v, bit); if v >> bit == 0 && chunk == 0xffff { lemma_next(store@, *pool_key, tick as int, sp, lim + 1); } }
#loop 1
    invariant
        bit < 64, bit0 <= bit, bit0 < 64, shifted != 0, shifted == chunk_of(store@, *pool_key, chunk as int) >> bit,
        forall|i: int| bit0 <= i < bit ==> !#[trigger] bit_of(chunk_of(store@, *pool_key, chunk as int), i)
    decreases 64 - bit
#loopstart 1
    proof { assert(shifted & 1 == shifted % 2) by (bit_vector); lemma_shr(chunk_of(store@, *pool_key, chunk as int), bit); }
#loopafter 1
    proof {
        assert(shifted & 1 == shifted % 2) by (bit_vector);
        let n = chunk * 64 + bit;
        lemma_shr(chunk_of(store@, *pool_key, chunk as int), bit);
        lemma_chunk(chunk as int, bit as int);
        assert forall|m: int| from <= m < n implies !#[trigger] bit_idx(store@, *pool_key, m) by { if m >= chunk * 64 + bit0 { lemma_chunk(chunk as int, m - chunk * 64); } }
        lemma_next(store@, *pool_key, tick as int, sp, n);
        lemma_next(store@, *pool_key, tick as int, sp, lim + 1);
    }
#loopafter 0
    proof { lemma_next(store@, *pool_key, tick as int, sp, lim + 1); }
#fn state::prev_initialized
#panicops
    ensures tick_spacing > 0, tick as int % (tick_spacing as int) == 0, prev_ok(store@, *pool_key, tick as int, tick_spacing as int, r)
#start
    let ghost sp = tick_spacing as int; let ghost from = bidx(tick as int, sp); let ghost lim = bidx(search_limit(tick as int, sp, false), sp);
#aftercall tick_to_position@1
    proof { lemma_limits(tick as int, sp); }
#loop 0
    invariant
        tick_spacing > 0, sp == tick_spacing as int, bit < 64, from == bidx(tick as int, sp), lim == bidx(limit as int, sp), lim >= 0, lim <= from,
        tick as int % sp == 0, limit == search_limit(tick as int, sp, false), limit as int % sp == 0,
        lim == limiting_chunk * 64 + limiting_bit, limiting_bit < 64,
        chunk * 64 + bit <= from, -MAXT() <= tick <= MAXT(),
        forall|n: int| chunk * 64 + bit < n <= from ==> !#[trigger] bit_idx(store@, *pool_key, n)
    decreases chunk
#loopstart 0
    let ghost bit0 = bit;
    proof { lemma_mask(bit); let v = chunk_of(store@, *pool_key, chunk as int); if low_bits(v, bit + 1) == 0 { lemma_low_zero(v, bit + 1); if chunk == 0 { lemma_prev(store@, *pool_key, tick as int, sp, lim - 1); } } }
#loop 1
    invariant
        bit <= bit0, bit0 < 64, mask == 1u128 << bit, value == chunk_of(store@, *pool_key, chunk as int) as u128,
        low_bits(chunk_of(store@, *pool_key, chunk as int), bit + 1) > 0,
        forall|i: int| bit < i <= bit0 ==> !#[trigger] bit_of(chunk_of(store@, *pool_key, chunk as int), i)
    decreases bit
#loopstart 1
    proof { let v = chunk_of(store@, *pool_key, chunk as int); lemma_and_mask(v, bit); lemma_low_step(v, bit as int); lemma_mask(bit); }
#loopafter 1
    proof {
        let n = chunk * 64 + bit;
        lemma_and_mask(chunk_of(store@, *pool_key, chunk as int), bit);
        lemma_chunk(chunk as int, bit as int);
        assert forall|m: int| n < m <= from implies !#[trigger] bit_idx(store@, *pool_key, m) by { if m <= chunk * 64 + bit0 { lemma_chunk(chunk as int, m - chunk * 64); } }
        lemma_prev(store@, *pool_key, tick as int, sp, n);
        lemma_prev(store@, *pool_key, tick as int, sp, lim - 1);
    }
#loopafter 0
    proof { lemma_prev(store@, *pool_key, tick as int, sp, lim - 1); }
#fn state::get_bitmap
    ensures tick_spacing > 0, tick as int % (tick_spacing as int) == 0, r == bit_set(store@, *pool_key, tick as int, tick_spacing as int), pk_ok(*pool_key)
#fn state::get_bitmap_item
    ensures pk_ok(*pool_key), (r is Ok) == store@.bitmap.contains_key(bkey(chunk as int, *pool_key)), r is Ok ==> r->Ok_0 == chunk_of(store@, *pool_key, chunk as int)
#fn state::flip_bitmap
    ensures tick_spacing > 0, tick as int % (tick_spacing as int) == 0, pk_ok(*pool_key),
        r is Ok ==> bit_set(old(store)@, *pool_key, tick as int, tick_spacing as int) != value && bits_flipped(old(store)@, final(store)@, *pool_key, bidx(tick as int, tick_spacing as int))
#aftercall tick_to_position
    proof { lemma_chunk(chunk as int, bit as int); }
#fn state::get_closer_limit
    ensures r is Ok ==> tick_spacing > 0,
        r is Ok && current_tick as int % (tick_spacing as int) == 0 ==> closer_ok(store@, *pool_key, sqrt_price_limit.0 as int, x_to_y, current_tick as int, tick_spacing as int, r->Ok_0.0.0 as int, r->Ok_0.1),
        r is Ok && r->Ok_0.1 is None ==> r->Ok_0.0 == sqrt_price_limit,
        r is Ok && r->Ok_0.1 is Some ==> r->Ok_0.0.0 == tick_price(r->Ok_0.1->Some_0.0 as int) && before_limit(r->Ok_0.1->Some_0.0 as int, x_to_y, sqrt_price_limit.0 as int) && -MAXT() <= r->Ok_0.1->Some_0.0 <= MAXT()
#aftercall calculate_sqrt_price
    proof { reveal(closer_ok); if current_tick as int % (tick_spacing as int) == 0 { assert(search_ok(store@, *pool_key, current_tick as int, tick_spacing as int, x_to_y, index, is_initialized)); } }
#fn state::get_all_positions
    ensures r is Ok ==> r->Ok_0@.len() == page_len(store@, account_id@, limit, offset),
        r is Ok ==> positions_are(store@, account_id@, page_from(offset), r->Ok_0@)
#loop 0
    invariant from_idx == page_from(offset), __e0 == to_idx, from_idx <= __i0, __i0 <= to_idx || from_idx > to_idx && __i0 == from_idx, __r0@.len() == __i0 - from_idx,
        positions_are(store@, account_id@, from_idx as int, __r0@)
    decreases __e0 - __i0
#loopstart 0
    let ghost n0 = __r0@.len() as int;
    proof { assert(from_idx + n0 == __i0); assert(poskey(account_id@, from_idx + n0) == poskey(account_id@, __i0 as int)); }
    let ghost r0 = pos_seq(__r0@);
#loopend 0
    proof { lemma_positions_push(store@, account_id@, from_idx as int, r0, __r0@); }
#fn state::get_all_position_keys
    ensures r@.len() == page_len(store@, account_id@, limit, offset),
        keys_from(r@, account_id@, page_from(offset))
#loop 0
    invariant from_idx == page_from(offset), __e0 == to_idx, from_idx <= __i0, __i0 <= to_idx || from_idx > to_idx && __i0 == from_idx, __r0@.len() == __i0 - from_idx,
        keys_from(__r0@, account_id@, from_idx as int)
    decreases __e0 - __i0
