#rem ---- math/log ----
#fn math::log::sqrt_price_to_x32
#panicops
    ensures decimal.0 <= MAX_SQRT_PRICE ==> r == x32(decimal.0 as int)
#start
    proof { if decimal.0 <= MAX_SQRT_PRICE { lemma_x32(decimal.0 as int, MAX_SQRT_PRICE as int); assert(x32(65535383934512647000000000000) < 0x10000000000000000) by (compute); } }
#fn math::log::align_tick_to_spacing
#panicops
    ensures tick_spacing != 0, tick_spacing > 0 ==> r == accurate_tick as int / (tick_spacing as int) * tick_spacing
#start
    proof { if tick_spacing > 0 { lemma_align(accurate_tick as int, tick_spacing as int); lemma_fundamental_div_mod(accurate_tick as int, tick_spacing as int); lemma_mod_bound(accurate_tick as int, tick_spacing as int); } }
#fn math::log::log2_floor_x32
    ensures r < 64, sqrt_price_x32 > 0 ==> r == ilog(sqrt_price_x32 as int)
#start
    let ghost v0 = sqrt_price_x32;
#afterlet msb
    proof { assert(v0 >> 0u64 == v0 && 0u64 & 63 == 0) by (bit_vector); }
    let ghost (x0, m0) = (sqrt_price_x32, msb);
#afterif 1
    proof { lemma_msb_32(v0, x0, m0, sqrt_price_x32, msb); }
    let ghost (x1, m1) = (sqrt_price_x32, msb);
#afterif 2
    proof { lemma_msb_16(v0, x1, m1, sqrt_price_x32, msb); }
    let ghost (x2, m2) = (sqrt_price_x32, msb);
#afterif 3
    proof { lemma_msb_8(v0, x2, m2, sqrt_price_x32, msb); }
    let ghost (x3, m3) = (sqrt_price_x32, msb);
#afterif 4
    proof { lemma_msb_4(v0, x3, m3, sqrt_price_x32, msb); }
    let ghost (x4, m4) = (sqrt_price_x32, msb);
#afterif 5
    proof { lemma_msb_2(v0, x4, m4, sqrt_price_x32, msb); }
    let ghost (x5, m5) = (sqrt_price_x32, msb);
#afterif 6
    proof { lemma_msb_1(v0, x5, m5, v0 >> msb, msb); lemma_msb_end(v0, v0 >> msb, msb); }
#fn math::log::log2_iterative_approximation_x32
#panicops
    ensures 65536 <= sqrt_price_x32 < 0x1000000000000 ==> r.0 == up32(sqrt_price_x32 as int) && r.1 == lgs(sqrt_price_x32 as int)
#start
    let ghost x0 = sqrt_price_x32 as int; let ghost ok = 65536 <= x0 < 0x1000000000000;
    proof { if ok && x0 < 0x100000000 { lemma_inv32(65536, x0); lemma_inv32(x0, x0); assert(0x10000000000000000int / 65537 < 0x1000000000000) by (compute); } }
#beforecall log2_floor_x32
    let ghost x = sqrt_price_x32 as int;
    proof { if ok { lemma_log_start(sqrt_price_x32); } }
#afterlet y
    proof { if ok { lemma_log_y(sqrt_price_x32, log2_floor); lemma_frac1(0x80000000); }
        assert(sub(mul(0x80000000u64, 2), 1) == 0xffffffff && 0x80000000u64 & sub(0x80000000u64, 1) == 0) by (bit_vector); }
    let ghost y0 = y as int;
#loop 0
    invariant ok ==> 0x100000000 <= y < 0x200000000 && result + frac(y as int, delta as int) == lg(x) && result & sub(mul(delta, 2), 1) == 0 && delta & sub(delta, 1) == 0 && 65536 <= delta <= 0x80000000
    decreases delta
#loopstart 0
    proof { if ok { lemma_or(result, delta); lemma_sq(y as int); assert(delta > 65536 && delta & sub(delta, 1) == 0 ==> delta >> 1 >= 65536) by (bit_vector); } assert(delta >> 1 == delta / 2) by (bit_vector); let z = ((y * y) / 0x100000000) as u128; assert(z >> 1 == z / 2) by (bit_vector); }
#fn math::log::get_tick_at_sqrt_price
#panicops
    ensures r is Ok ==> tick_spacing > 0 && MIN_SQRT_PRICE <= sqrt_price.0 <= MAX_SQRT_PRICE && r->Ok_0 == tick_at(sqrt_price.0 as int, tick_spacing as int)
#aftercall sqrt_price_to_x32
    proof { lemma_cands(sqrt_price.0 as int); lemma_x32(sqrt_price.0 as int, sqrt_price.0 as int); lemma_x32(MIN_SQRT_PRICE as int, sqrt_price.0 as int); lemma_x32(sqrt_price.0 as int, MAX_SQRT_PRICE as int);
        assert(x32(15258932000000000000) >= 65536 && x32(65535383934512647000000000000) < 0x1000000000000) by (compute);
        if tick_spacing > 0 { lemma_choose(sqrt_price.0 as int, cand(x32(sqrt_price.0 as int)), tick_spacing as int); } }
