// The tick bitmap: what a search returns (A10, A17). A set defines SV and chunk_of.
pub mod vbits {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power2::*;
use vstd::bits::*;
use crate::prelude::*;
use crate::PoolKey;
verus! {
// ---- bitmap ----
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn search_limit(t: int, sp: int, up: bool) -> int {
    if up { imin(tdiv(t, sp) + 256, MAXT() / sp) * sp } else { imax(tdiv(t, sp) - 256, -(MAXT() / sp)) * sp }
}

pub open spec fn bit_of(v: u64, i: int) -> bool { (v >> (i as u64)) & 1 == 1 }
/// bitmap index of a tick (ticks are multiples of the spacing)
pub open spec fn bidx(t: int, sp: int) -> int { (t + MAXT()) / sp }
pub open spec fn bit_idx(s: SV, k: PoolKey, n: int) -> bool { bit_of(chunk_of(s, k, n / 64), n % 64) }
pub open spec fn bit_set(s: SV, k: PoolKey, t: int, sp: int) -> bool { bit_idx(s, k, bidx(t, sp)) }
pub proof fn lemma_trem0(t: int, sp: int)
    requires sp > 0, trem(t, sp) == 0, -MAXT() <= t <= MAXT()
    ensures t % sp == 0, t == tdiv(t, sp) * sp, bidx(t, sp) == tdiv(t, sp) + MAXT() / sp
{
    let k = tdiv(t, sp);
    assert(t == k * sp) by (nonlinear_arith) requires t - sp * k == 0;
    lemma_mod_multiples_basic(k, sp);
    lemma_hoist_over_denominator(MAXT(), k, sp as nat);
    assert((t + MAXT()) == MAXT() + k * sp);
}
pub proof fn lemma_flip(v: u64, p: u8)
    requires p < 64
    ensures forall|i: int| 0 <= i < 64 ==> #[trigger] bit_of((v ^ (1u64 << p)) as u64, i) == (if i == p { !bit_of(v, i) } else { bit_of(v, i) })
{
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit_of((v ^ (1u64 << p)) as u64, i) == (if i == p { !bit_of(v, i) } else { bit_of(v, i) }) by {
        let j = i as u64; let q = p as u64;
        assert(p < 64 ==> 1u64 << p == 1u64 << (p as u64)) by (bit_vector);
        assert(j < 64 && q < 64 ==> (((v ^ (1u64 << q)) >> j) & 1 == 1) == (if j == q { !((v >> j) & 1 == 1) } else { (v >> j) & 1 == 1 })) by (bit_vector);
    }
}
pub proof fn lemma_pos_tick(c: int, b: int, sp: int) requires sp > 0 ensures c * 64 * sp + b * sp == (c * 64 + b) * sp, MAXT() - trem(MAXT(), sp) == (MAXT() / sp) * sp
{
    assert(c * 64 * sp + b * sp == (c * 64 + b) * sp) by (nonlinear_arith);
    assert(sp * (MAXT() / sp) == (MAXT() / sp) * sp) by (nonlinear_arith);
}
pub proof fn lemma_min_chunk(sp: int) requires 0 < sp < 65536 ensures tdiv(MAXT() - (MAXT() / sp) * sp, sp) == 0
{
    lemma_fundamental_div_mod(MAXT(), sp);
    assert(sp * (MAXT() / sp) == (MAXT() / sp) * sp) by (nonlinear_arith);
    assert(0 <= MAXT() % sp < sp);
    lemma_basic_div(MAXT() % sp, sp);
}
/// bits as numbers: v mod 2^(b+1) is v mod 2^b plus bit b
pub open spec fn low_bits(v: u64, n: int) -> int { v as int % pow2(n as nat) as int }
pub proof fn lemma_low_step(v: u64, b: int)
    requires 0 <= b < 64
    ensures low_bits(v, b + 1) == low_bits(v, b) + (if bit_of(v, b) { pow2(b as nat) as int } else { 0 }), low_bits(v, b) >= 0, low_bits(v, 0) == 0, pow2(b as nat) > 0
{
    lemma2_to64();
    lemma_pow2_pos(b as nat);
    lemma_pow2_unfold((b + 1) as nat);
    let p = pow2(b as nat) as int;
    lemma_mod_breakdown(v as int, p, 2);
    lemma_u64_shr_is_div(v, b as u64);
    let x = v >> (b as u64);
    assert(x & 1 == x % 2) by (bit_vector);
    assert(p * 2 == pow2((b + 1) as nat));
    assert(p * ((v as int / p) % 2) == (if bit_of(v, b) { p } else { 0 })) by (nonlinear_arith)
        requires (v as int / p) % 2 == (if bit_of(v, b) { 1int } else { 0int });
}
pub proof fn lemma_low_zero(v: u64, n: int)
    requires 0 <= n <= 64, low_bits(v, n) == 0
    ensures forall|i: int| 0 <= i < n ==> !#[trigger] bit_of(v, i)
    decreases n
{
    if n > 0 { lemma_low_step(v, n - 1); lemma_pow2_pos((n - 1) as nat); lemma_low_zero(v, n - 1); }
}
/// 1 << b as a u128
pub proof fn lemma_mask(b: u8)
    requires b < 64
    ensures (1u128 << b) == pow2(b as nat), ((1u128 << b) << 1u32) == pow2((b + 1) as nat), (1u128 << b) << 1u32 > 0, b > 0 ==> (1u128 << b) >> 1u32 == 1u128 << ((b - 1) as u8)
    decreases b
{
    lemma2_to64();
    lemma_pow2_unfold((b + 1) as nat);
    assert(b < 64 ==> ((1u128 << b) << 1u32) == 2 * (1u128 << b) && ((1u128 << b) << 1u32) > 0) by (bit_vector);
    if b == 0 { assert(1u128 << 0u8 == 1) by (bit_vector); }
    else {
        let c = (b - 1) as u8;
        lemma_mask(c);
        lemma_pow2_unfold(b as nat);
        assert(0 < b && b < 64 ==> (1u128 << b) == 2 * (1u128 << ((b - 1) as u8)) && (1u128 << b) >> 1u32 == 1u128 << ((b - 1) as u8)) by (bit_vector);
    }
}
pub proof fn lemma_and_mask(v: u64, b: u8)
    requires b < 64
    ensures ((v as u128) & (1u128 << b) == 0) == !bit_of(v, b as int)
{
    assert(b < 64 ==> (((v as u128) & (1u128 << b) == 0) == !((v >> (b as u64)) & 1 == 1))) by (bit_vector);
}
/// v >> b: zero, parity, next
pub proof fn lemma_shr(v: u64, b: u8)
    requires b < 64
    ensures
        v >> b == 0 ==> forall|i: int| b <= i < 64 ==> !#[trigger] bit_of(v, i),
        ((v >> b) % 2 == 0) == !bit_of(v, b as int),
        v >> b != 0 && (v >> b) % 2 == 0 ==> b < 63 && (v >> b) >> 1u32 != 0 && (v >> b) >> 1u32 == v >> ((b + 1) as u8),
{
    assert forall|i: int| v >> b == 0 && b <= i < 64 implies !#[trigger] bit_of(v, i) by {
        let j = i as u64;
        assert(b <= j && j < 64 && v >> b == 0 ==> (v >> j) & 1 == 0) by (bit_vector);
    }
    assert(b < 64 ==> (((v >> b) % 2 == 0) == !((v >> (b as u64)) & 1 == 1))) by (bit_vector);
    assert(b < 64 && v >> b != 0 && (v >> b) % 2 == 0 ==> b < 63 && (v >> b) >> 1u32 != 0 && (v >> b) >> 1u32 == v >> ((b + 1) as u8)) by (bit_vector);
}
/// what the searches promise: the nearest initialized tick within reach, or none
pub open spec fn next_ok(s: SV, k: PoolKey, t: int, sp: int, r: Option<i32>) -> bool {
    match r {
        Some(i) => t < i <= search_limit(t, sp, true) && i as int % sp == 0 && bit_set(s, k, i as int, sp)
            && forall|j: int| t < j < i && j % sp == 0 ==> !#[trigger] bit_set(s, k, j, sp),
        None => forall|j: int| t < j <= search_limit(t, sp, true) && j % sp == 0 ==> !#[trigger] bit_set(s, k, j, sp),
    }
}
pub open spec fn prev_ok(s: SV, k: PoolKey, t: int, sp: int, r: Option<i32>) -> bool {
    match r {
        Some(i) => search_limit(t, sp, false) <= i <= t && i as int % sp == 0 && bit_set(s, k, i as int, sp)
            && forall|j: int| i < j <= t && j % sp == 0 ==> !#[trigger] bit_set(s, k, j, sp),
        None => forall|j: int| search_limit(t, sp, false) <= j <= t && j % sp == 0 ==> !#[trigger] bit_set(s, k, j, sp),
    }
}
/// multiples of the spacing and bitmap indices
pub proof fn lemma_bidx(t: int, sp: int)
    requires sp > 0, t % sp == 0
    ensures bidx(t, sp) == t / sp + MAXT() / sp, t == (bidx(t, sp) - MAXT() / sp) * sp, t == (t / sp) * sp, tdiv(t, sp) == t / sp
{
    lemma_fundamental_div_mod(t, sp);
    let k = t / sp;
    assert(t == k * sp) by (nonlinear_arith) requires t == sp * k;
    lemma_hoist_over_denominator(MAXT(), k, sp as nat);
    assert((t + MAXT()) == MAXT() + k * sp);
    if t < 0 {
        assert((-t) == (-k) * sp) by (nonlinear_arith) requires t == k * sp;
        lemma_div_multiples_vanish(-k, sp);
    }
}
pub proof fn lemma_bidx_inv(n: int, sp: int)
    requires sp > 0
    ensures ((n - MAXT() / sp) * sp) % sp == 0, bidx((n - MAXT() / sp) * sp, sp) == n
{
    let k = n - MAXT() / sp;
    lemma_mod_multiples_basic(k, sp);
    lemma_hoist_over_denominator(MAXT(), k, sp as nat);
    assert(k * sp + MAXT() == MAXT() + k * sp);
}
pub proof fn lemma_mul_le(a: int, b: int, c: int) requires c > 0 ensures (a < b) == (a * c < b * c), (a <= b) == (a * c <= b * c)
{
    assert((a < b) == (a * c < b * c)) by (nonlinear_arith) requires c > 0;
    assert((a <= b) == (a * c <= b * c)) by (nonlinear_arith) requires c > 0;
}
/// no set index in [from, to) means no initialized tick strictly between the corresponding ticks
pub proof fn lemma_gap(s: SV, k: PoolKey, sp: int, from: int, to: int)
    requires sp > 0, forall|n: int| from <= n < to ==> !#[trigger] bit_idx(s, k, n)
    ensures forall|j: int| (from - MAXT() / sp) * sp <= j < (to - MAXT() / sp) * sp && j % sp == 0 ==> !#[trigger] bit_set(s, k, j, sp)
{
    assert forall|j: int| (from - MAXT() / sp) * sp <= j < (to - MAXT() / sp) * sp && j % sp == 0 implies !#[trigger] bit_set(s, k, j, sp) by {
        lemma_bidx(j, sp);
        lemma_mul_le(from - MAXT() / sp, j / sp, sp);
        lemma_mul_le(j / sp, to - MAXT() / sp, sp);
        assert(!bit_idx(s, k, bidx(j, sp)));
    }
}
pub proof fn lemma_chunk(c: int, b: int) requires 0 <= b < 64 ensures (c * 64 + b) / 64 == c, (c * 64 + b) % 64 == b {}
pub proof fn lemma_limits(t: int, sp: int)
    requires sp > 0, t % sp == 0
    ensures
        search_limit(t, sp, true) % sp == 0, search_limit(t, sp, false) % sp == 0,
        bidx(search_limit(t, sp, true), sp) == imin(bidx(t, sp) + 256, 2 * (MAXT() / sp)),
        bidx(search_limit(t, sp, false), sp) == imax(bidx(t, sp) - 256, 0),
        (t + sp) % sp == 0, bidx(t + sp, sp) == bidx(t, sp) + 1,
        search_limit(t, sp, true) == (bidx(search_limit(t, sp, true), sp) - MAXT() / sp) * sp,
        search_limit(t, sp, false) == (bidx(search_limit(t, sp, false), sp) - MAXT() / sp) * sp,
        search_limit(t, sp, true) <= MAXT(), search_limit(t, sp, false) >= -MAXT(),
        t <= MAXT() ==> bidx(t, sp) <= 2 * (MAXT() / sp), t >= -MAXT() ==> bidx(t, sp) >= 0,
{
    if t <= MAXT() { lemma_div_is_ordered(t, MAXT(), sp); }
    if t >= -MAXT() { lemma_div_pos_is_pos(t + MAXT(), sp); }
    lemma_bidx(t, sp);
    let n = MAXT() / sp;
    let a = imin(t / sp + 256, n); let b = imax(t / sp - 256, -n);
    lemma_bidx_inv(a + n, sp); lemma_bidx_inv(b + n, sp); lemma_bidx_inv(t / sp + 1 + n, sp);
    assert((t / sp + 1) * sp == (t / sp) * sp + sp) by (nonlinear_arith);
    lemma_mul_le(a, n, sp); lemma_mul_le(-n, b, sp);
    lemma_fundamental_div_mod(MAXT(), sp);
    assert(n * sp <= MAXT()) by (nonlinear_arith) requires n == MAXT() / sp, sp > 0, MAXT() == sp * (MAXT() / sp) + MAXT() % sp, MAXT() % sp >= 0;
    assert((-n) * sp >= -MAXT()) by (nonlinear_arith) requires n * sp <= MAXT();
}
pub proof fn lemma_next(s: SV, k: PoolKey, t: int, sp: int, n: int)
    requires 0 < sp < 0x10000, t % sp == 0, bidx(t, sp) < n
    ensures ({
        let lim = bidx(search_limit(t, sp, true), sp);
        let i = (n - MAXT() / sp) * sp;
        &&& n <= lim && t + sp >= -MAXT() ==> -MAXT() <= i <= MAXT()
        &&& (forall|m: int| bidx(t, sp) < m < n ==> !#[trigger] bit_idx(s, k, m)) ==> (n > lim ==> next_ok(s, k, t, sp, None)) && (n <= lim && t + sp >= -MAXT() && bit_idx(s, k, n) ==> next_ok(s, k, t, sp, Some(i as i32)))
    })
{
    let lim = bidx(search_limit(t, sp, true), sp); let nn = MAXT() / sp;
    let i = (n - nn) * sp;
    lemma_limits(t, sp); lemma_bidx(t, sp); lemma_bidx_inv(n, sp);
    lemma_mul_le(bidx(t, sp) + 1 - nn, n - nn, sp); lemma_mul_le(bidx(t, sp) - nn, n - nn, sp);
    lemma_mul_le(n - nn, lim - nn, sp);
    lemma_mul_le(lim - nn, n - nn, sp);
    assert((bidx(t, sp) + 1 - nn) * sp == t + sp) by (nonlinear_arith) requires t == (bidx(t, sp) - nn) * sp;
    if forall|m: int| bidx(t, sp) < m < n ==> !#[trigger] bit_idx(s, k, m) {
        lemma_gap(s, k, sp, bidx(t, sp) + 1, n);
        assert forall|j: int| t < j < i && j % sp == 0 implies !#[trigger] bit_set(s, k, j, sp) by {
            lemma_bidx(j, sp); lemma_mul_le(t / sp, j / sp, sp); lemma_mul_le(t / sp + 1, j / sp, sp);
        }
    }
}
pub proof fn lemma_prev(s: SV, k: PoolKey, t: int, sp: int, n: int)
    requires 0 < sp < 0x10000, t % sp == 0, -MAXT() <= t <= MAXT(), n <= bidx(t, sp)
    ensures ({
        let lim = bidx(search_limit(t, sp, false), sp);
        let i = (n - MAXT() / sp) * sp;
        &&& n >= lim ==> -MAXT() <= i <= MAXT()
        &&& (forall|m: int| n < m <= bidx(t, sp) ==> !#[trigger] bit_idx(s, k, m)) ==> (n < lim ==> prev_ok(s, k, t, sp, None)) && (n >= lim && bit_idx(s, k, n) ==> prev_ok(s, k, t, sp, Some(i as i32)))
    })
{
    let lim = bidx(search_limit(t, sp, false), sp); let nn = MAXT() / sp;
    let i = (n - nn) * sp;
    lemma_limits(t, sp); lemma_bidx(t, sp); lemma_bidx_inv(n, sp);
    lemma_mul_le(n - nn, bidx(t, sp) - nn, sp);
    lemma_mul_le(n - nn, lim - nn, sp);
    lemma_mul_le(lim - nn, n - nn, sp);
    assert((n + 1 - nn) * sp == i + sp) by (nonlinear_arith) requires i == (n - nn) * sp;
    assert((bidx(t, sp) + 1 - nn) * sp == t + sp) by (nonlinear_arith) requires t == (bidx(t, sp) - nn) * sp;
    if forall|m: int| n < m <= bidx(t, sp) ==> !#[trigger] bit_idx(s, k, m) {
        lemma_gap(s, k, sp, n + 1, bidx(t, sp) + 1);
        assert forall|j: int| i < j <= t && j % sp == 0 implies !#[trigger] bit_set(s, k, j, sp) by {
            lemma_bidx(j, sp); lemma_mul_le(n - nn, j / sp, sp); lemma_mul_le(n - nn + 1, j / sp, sp);
        }
    }
}
/// at the top there is no further tick in range
pub proof fn lemma_early(t: int, sp: int) requires sp > 0, t % sp == 0 ensures t + sp > MAXT() ==> bidx(search_limit(t, sp, true), sp) < bidx(t, sp) + 1
{
    lemma_limits(t, sp); lemma_bidx(t, sp); 
    let lim = bidx(search_limit(t, sp, true), sp);
    lemma_mul_le(lim - MAXT() / sp, t / sp + 1, sp);
    assert((t / sp + 1) * sp == (t / sp) * sp + sp) by (nonlinear_arith);
}
/// where a swap step may run to: the nearest initialized tick, else the end of the search range
pub open spec fn search_ok(s: SV, k: PoolKey, t: int, sp: int, xy: bool, i: i32, init: bool) -> bool {
    if init { if xy { prev_ok(s, k, t, sp, Some(i)) } else { next_ok(s, k, t, sp, Some(i)) } }
    else { i == search_limit(t, sp, !xy) && i != t && if xy { prev_ok(s, k, t, sp, None) } else { next_ok(s, k, t, sp, None) } }
}
pub open spec fn before_limit(i: int, xy: bool, limit: int) -> bool { if xy { tick_price(i) > limit } else { tick_price(i) <= limit } }
/// the closer of the price limit and the search result
#[verifier::opaque]
pub open spec fn closer_ok(s: SV, k: PoolKey, limit: int, xy: bool, t: int, sp: int, lp: int, lt: Option<(i32, bool)>) -> bool {
    match lt {
        Some((i, init)) => search_ok(s, k, t, sp, xy, i, init) && lp == tick_price(i as int) && before_limit(i as int, xy, limit),
        None => lp == limit && exists|i: i32, init: bool| #[trigger] search_ok(s, k, t, sp, xy, i, init) && !before_limit(i as int, xy, limit),
    }
}
} // verus!
} // mod vbits
