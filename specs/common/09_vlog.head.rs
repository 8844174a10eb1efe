// A02: the tick computed from a price. The logarithm is monotone, so it is enough to know it at the ends of every tick's price interval;
// those 2 x 443636 values are established by the verified and executed table checker (specs/tickcheck.rs), here assumed as lemma_table.
pub mod vlog {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use crate::vmath::*;
use crate::vtick::*;
use crate::vtab::*;
use crate::vtickm::*;
verus! {
/// TRUSTED here, decided by running the verified checker on every check
#[verifier::external_body]
pub proof fn lemma_table(t: int) requires -221818 <= t < 221818 ensures ends_ok(t) {}
pub proof fn lemma_frac(y1: int, y2: int, d: int)
    requires 0 <= y1 <= y2, d > 0
    ensures 0 <= frac(y1, d) <= frac(y2, d), frac(y2, d) < 2 * d
    decreases d
{
    if d > 65536 {
        let z1 = y1 * y1 / 0x100000000; let z2 = y2 * y2 / 0x100000000;
        assert(y1 * y1 <= y2 * y2 && 0 <= y1 * y1) by (nonlinear_arith) requires 0 <= y1 <= y2;
        lemma_div_is_ordered(y1 * y1, y2 * y2, 0x100000000);
        lemma_div_pos_is_pos(y1 * y1, 0x100000000);
        let w1 = if z1 >= 0x200000000 { z1 / 2 } else { z1 }; let w2 = if z2 >= 0x200000000 { z2 / 2 } else { z2 };
        if (z1 >= 0x200000000) == (z2 >= 0x200000000) { lemma_frac(w1, w2, d / 2); }
        else { lemma_frac(w1, w1, d / 2); lemma_frac(w2, w2, d / 2); }
    }
}
pub proof fn lemma_ilog(v: int)
    requires v >= 1
    ensures ilog(v) >= 0, p2(ilog(v)) <= v < 2 * p2(ilog(v)), p2(ilog(v)) > 0
    decreases v
{ if v > 1 { lemma_ilog(v / 2); } }
pub proof fn lemma_ilog_mono(v: int, w: int)
    requires 1 <= v <= w
    ensures ilog(v) <= ilog(w)
    decreases w
{ if v > 1 { lemma_ilog_mono(v / 2, w / 2); } else { lemma_ilog(w); } }
pub proof fn lemma_lg(x: int, y: int)
    requires 0x100000000 <= x <= y
    ensures 0 <= lg(x) <= lg(y)
{
    let v = x / 0x100000000; let w = y / 0x100000000;
    lemma_ilog(v); lemma_ilog(w); lemma_ilog_mono(v, w);
    let m = ilog(v); let n = ilog(w);
    lemma_div_pos_is_pos(x, p2(m)); lemma_div_pos_is_pos(y, p2(n));
    if m == n { lemma_div_is_ordered(x, y, p2(m)); lemma_frac(x / p2(m), y / p2(m), 0x80000000); }
    else { lemma_frac(x / p2(m), x / p2(m), 0x80000000); lemma_frac(y / p2(n), y / p2(n), 0x80000000); }
}
pub proof fn lemma_inv32(x: int, y: int)
    requires 0 <= x <= y < 0x100000000
    ensures 0x100000000int <= 0x10000000000000000int / (y + 1) <= 0x10000000000000000int / (x + 1)
{
    let q = 0x10000000000000000int;
    lemma_fundamental_div_mod(q, y + 1); lemma_fundamental_div_mod(q, x + 1);
    lemma_mod_bound(q, y + 1); lemma_mod_bound(q, x + 1);
    let a = q / (y + 1); let b = q / (x + 1);
    assert(a * (y + 1) == (y + 1) * a && b * (x + 1) == (x + 1) * b) by (nonlinear_arith);
    assert(a <= b) by (nonlinear_arith) requires a * (y + 1) <= q, q < b * (x + 1) + (x + 1), x <= y, x >= 0, a >= 0 || a < 0, q > 0;
    assert(a >= 0x100000000int) by (nonlinear_arith) requires q < a * (y + 1) + (y + 1), y + 1 <= 0x100000000, y >= 0, q == 0x100000000int * 0x100000000;
}
pub proof fn lemma_cand(x: int, y: int)
    requires 0 <= x <= y, up32(x) == up32(y)
    ensures up32(x) ==> 0 <= cand(x) <= cand(y), !up32(x) ==> cand(x) >= cand(y) >= 0
{
    if up32(x) { lemma_lg(x, y); lemma_div_is_ordered(lgs(x), lgs(y), 309801); lemma_div_pos_is_pos(lgs(x), 309801); }
    else {
        lemma_inv32(x, y);
        lemma_lg(0x10000000000000000int / (y + 1), 0x10000000000000000int / (x + 1));
        lemma_div_is_ordered(lgs(y) + 300000, lgs(x) + 300000, 309801); lemma_div_pos_is_pos(lgs(y) + 300000, 309801);
    }
}
pub proof fn lemma_x32(p: int, q: int) requires 0 <= p <= q ensures 0 <= x32(p) <= x32(q), up32(x32(p)) == (p >= E24())
{
    lemma_div_is_ordered(p * 0x100000000, q * 0x100000000, 1000000000000000000000000);
    lemma_div_pos_is_pos(p * 0x100000000, 1000000000000000000000000);
    lemma_fundamental_div_mod(p * 0x100000000, 1000000000000000000000000);
}
pub proof fn lemma_tpr(t: int) requires -MAXT() <= t <= MAXT() ensures tpr(t) == tick_price(t)
{ if t >= 0 { lemma_fp(t); } else { lemma_fp(-t); } }
/// the tick of a price exists, and is one of the two candidates
pub proof fn lemma_tick_exists(p: int, t: int)
    requires -MAXT() <= t <= MAXT(), tick_price(t) <= p <= tick_price(MAXT())
    ensures exists|u: int| is_tick1(u, p)
    decreases MAXT() - t
{
    if t == MAXT() || p < tick_price(t + 1) { assert(is_tick1(t, p)); } else { lemma_tick_exists(p, t + 1); }
}
pub proof fn lemma_cands(p: int)
    requires 15258932000000000000 <= p <= 65535383934512647000000000000
    ensures is_tick1(tick1(p), p), ({ let c = cand(x32(p)); c >= 0 && if p >= E24() { tick1(p) == c || tick1(p) == c + 1 } else { tick1(p) == -c || tick1(p) == -c - 1 } })
{
    lemma_price_range(0);
    lemma_tick_exists(p, -MAXT());
    let t = tick1(p);
    assert(tp(0, 18) == 1000000000000) by (compute);
    lemma_tpr(0);
    if t >= 0 { if t > 0 { lemma_tick_price(0, t); } } else { if t < -1 { lemma_tick_price(t + 1, 0); } }
    assert((t >= 0) == (p >= E24()));
    lemma_tpr(t);
    lemma_price_range(t);
    lemma_x32(tick_price(t), p);
    if t < MAXT() {
        lemma_table(t);
        lemma_tpr(t + 1);
        lemma_x32(p, tick_price(t + 1) - 1);
        if t < -1 { lemma_tick_price(t + 1, 0); }
        if t > 0 { lemma_tick_price(0, t); }
        lemma_x32(tick_price(t + 1) - 1, tick_price(t + 1) - 1);
        lemma_cand(x32(tick_price(t)), x32(p));
        lemma_cand(x32(p), x32(tick_price(t + 1) - 1));
    } else {
        assert(p == tick_price(MAXT()));
        assert(tp(221818, 18) == 65535383934512647) by (compute);
        assert(cand(x32(65535383934512647000000000000)) == 221817 || cand(x32(65535383934512647000000000000)) == 221818) by (compute);
    }
}
/// r | d for a power of two d below which r has no bits
pub proof fn lemma_or(r: u64, d: u64)
    requires d > 0, d & sub(d, 1) == 0, r & sub(mul(d, 2), 1) == 0, d <= 0x80000000
    ensures r | d == r + d, (r | d) & sub(d, 1) == 0, r & sub(d, 1) == 0, d > 1 ==> (d >> 1) & sub(d >> 1, 1) == 0 && mul(d >> 1, 2) == d
{
    assert(d > 0 && d <= 0x80000000u64 && d & sub(d, 1) == 0 && r & sub(mul(d, 2), 1) == 0 ==> r <= sub(0xffffffffffffffffu64, d)) by (bit_vector);
    assert(d > 0 && d <= 0x80000000u64 && d & sub(d, 1) == 0 && r & sub(mul(d, 2), 1) == 0 ==> r | d == add(r, d) && add(r, d) >= r && (r | d) & sub(d, 1) == 0 && r & sub(d, 1) == 0
        && (d > 1 ==> (d >> 1) & sub(d >> 1, 1) == 0 && mul(d >> 1, 2) == d)) by (bit_vector);
}
pub proof fn lemma_sq(y: int) requires 0x100000000 <= y < 0x200000000 ensures 0x100000000 <= y * y / 0x100000000 < 0x400000000, y * y < 0x40000000000000000
{
    assert(0x100000000 * 0x100000000 <= y * y < 0x200000000 * 0x200000000) by (nonlinear_arith) requires 0x100000000 <= y < 0x200000000;
}
/// at exactly one all fraction bits are zero
pub proof fn lemma_frac1(d: int) ensures frac(0x100000000, d) == 0 decreases d { if d > 65536 { lemma_frac1(d / 2); } }
pub proof fn lemma_log_start(x: u64)
    requires 0x100000000 <= x < 0x1000000000000
    ensures x >> 32u8 == x as int / 0x100000000, 1 <= ilog(x as int / 0x100000000) + 1 <= 16
{
    assert(x >> 32u8 == x / 0x100000000) by (bit_vector);
    let v = x as int / 0x100000000;
    lemma_ilog(v); lemma_ilog_mono(v, 0xffff);
    assert(ilog(0xffff) == 15) by (compute);
}
pub proof fn lemma_log_y(x: u64, m: u64)
    requires 0x100000000 <= x < 0x1000000000000, m == ilog(x as int / 0x100000000)
    ensures ({ let y = (x as u128) >> m; y == x as int / p2(m as int) && 0x100000000 <= y < 0x200000000 }), m << 32u8 == m * 0x100000000, (m << 32u8) & 0xffffffff == 0
{
    let v = x as int / 0x100000000;
    lemma_ilog(v); lemma_log_start(x);
    let p = p2(m as int);
    assert(m < 16 ==> m << 32u8 == mul(m, 0x100000000) && mul(m, 0x100000000) / 0x100000000 == m && (m << 32u8) & 0xffffffff == 0) by (bit_vector);
    lemma_shr128(x as u128, m);
    lemma_fundamental_div_mod(x as int, 0x100000000);
    lemma_fundamental_div_mod(x as int, p);
    lemma_mod_bound(x as int, p);
    let y = x as int / p;
    assert(y >= 0x100000000) by (nonlinear_arith) requires x >= v * 0x100000000, v >= p, x < p * y + p, p > 0;
    assert(y < 0x200000000) by (nonlinear_arith) requires x < v * 0x100000000 + 0x100000000, v + 1 <= 2 * p, x >= p * y, p > 0;
}
pub proof fn lemma_shr128(x: u128, m: u64)
    requires m < 16
    ensures x >> m == x as int / p2(m as int)
    decreases m
{
    if m == 0 { assert(x >> 0u64 == x) by (bit_vector); }
    else {
        let n = (m - 1) as u64;
        lemma_shr128(x, n);
        assert(0 < m && m < 16 ==> x >> m == (x >> sub(m, 1)) / 2) by (bit_vector);
        lemma_p2(n as int);
        lemma_div_denominator(x as int, p2(n as int), 2);
        assert(p2(m as int) == p2(n as int) * 2);
    }
}
/// one halving of the search for the highest bit
pub open spec fn msb_at(v0: u64, x: u64, m: u64, k: u64) -> bool { m < 64 && x == v0 >> m && (v0 >= 1 ==> x >= 1) && m & sub(k, 1) == 0 && (k < 64 ==> x < 1u64 << k) }
pub proof fn lemma_msb_32(v0: u64, x: u64, m: u64, x2: u64, m2: u64)
    requires msb_at(v0, x, m, 64), x >= 4294967296u64 ==> x2 == x >> 32 && m2 == m | 32, x < 4294967296u64 ==> x2 == x && m2 == m
    ensures msb_at(v0, x2, m2, 32)
{
    assert(m < 64 && x == v0 >> m && (v0 >= 1 ==> x >= 1) && m & sub(64, 1) == 0 && (64u64 < 64 ==> x < 1u64 << 64u64) && (x >= (1u64 << 32u64) ==> x2 == x >> 32u64 && m2 == m | 32) && (x < (1u64 << 32u64) ==> x2 == x && m2 == m)
        ==> m2 < 64 && x2 == v0 >> m2 && (v0 >= 1 ==> x2 >= 1) && m2 & sub(32, 1) == 0 && x2 < 1u64 << 32u64) by (bit_vector);
    assert(1u64 << 32u64 == 4294967296u64) by (bit_vector);
}
pub proof fn lemma_msb_16(v0: u64, x: u64, m: u64, x2: u64, m2: u64)
    requires msb_at(v0, x, m, 32), x >= 65536u64 ==> x2 == x >> 16 && m2 == m | 16, x < 65536u64 ==> x2 == x && m2 == m
    ensures msb_at(v0, x2, m2, 16)
{
    assert(m < 64 && x == v0 >> m && (v0 >= 1 ==> x >= 1) && m & sub(32, 1) == 0 && (32u64 < 64 ==> x < 1u64 << 32u64) && (x >= (1u64 << 16u64) ==> x2 == x >> 16u64 && m2 == m | 16) && (x < (1u64 << 16u64) ==> x2 == x && m2 == m)
        ==> m2 < 64 && x2 == v0 >> m2 && (v0 >= 1 ==> x2 >= 1) && m2 & sub(16, 1) == 0 && x2 < 1u64 << 16u64) by (bit_vector);
    assert(1u64 << 16u64 == 65536u64) by (bit_vector);
}
pub proof fn lemma_msb_8(v0: u64, x: u64, m: u64, x2: u64, m2: u64)
    requires msb_at(v0, x, m, 16), x >= 256u64 ==> x2 == x >> 8 && m2 == m | 8, x < 256u64 ==> x2 == x && m2 == m
    ensures msb_at(v0, x2, m2, 8)
{
    assert(m < 64 && x == v0 >> m && (v0 >= 1 ==> x >= 1) && m & sub(16, 1) == 0 && (16u64 < 64 ==> x < 1u64 << 16u64) && (x >= (1u64 << 8u64) ==> x2 == x >> 8u64 && m2 == m | 8) && (x < (1u64 << 8u64) ==> x2 == x && m2 == m)
        ==> m2 < 64 && x2 == v0 >> m2 && (v0 >= 1 ==> x2 >= 1) && m2 & sub(8, 1) == 0 && x2 < 1u64 << 8u64) by (bit_vector);
    assert(1u64 << 8u64 == 256u64) by (bit_vector);
}
pub proof fn lemma_msb_4(v0: u64, x: u64, m: u64, x2: u64, m2: u64)
    requires msb_at(v0, x, m, 8), x >= 16u64 ==> x2 == x >> 4 && m2 == m | 4, x < 16u64 ==> x2 == x && m2 == m
    ensures msb_at(v0, x2, m2, 4)
{
    assert(m < 64 && x == v0 >> m && (v0 >= 1 ==> x >= 1) && m & sub(8, 1) == 0 && (8u64 < 64 ==> x < 1u64 << 8u64) && (x >= (1u64 << 4u64) ==> x2 == x >> 4u64 && m2 == m | 4) && (x < (1u64 << 4u64) ==> x2 == x && m2 == m)
        ==> m2 < 64 && x2 == v0 >> m2 && (v0 >= 1 ==> x2 >= 1) && m2 & sub(4, 1) == 0 && x2 < 1u64 << 4u64) by (bit_vector);
    assert(1u64 << 4u64 == 16u64) by (bit_vector);
}
pub proof fn lemma_msb_2(v0: u64, x: u64, m: u64, x2: u64, m2: u64)
    requires msb_at(v0, x, m, 4), x >= 4u64 ==> x2 == x >> 2 && m2 == m | 2, x < 4u64 ==> x2 == x && m2 == m
    ensures msb_at(v0, x2, m2, 2)
{
    assert(m < 64 && x == v0 >> m && (v0 >= 1 ==> x >= 1) && m & sub(4, 1) == 0 && (4u64 < 64 ==> x < 1u64 << 4u64) && (x >= (1u64 << 2u64) ==> x2 == x >> 2u64 && m2 == m | 2) && (x < (1u64 << 2u64) ==> x2 == x && m2 == m)
        ==> m2 < 64 && x2 == v0 >> m2 && (v0 >= 1 ==> x2 >= 1) && m2 & sub(2, 1) == 0 && x2 < 1u64 << 2u64) by (bit_vector);
    assert(1u64 << 2u64 == 4u64) by (bit_vector);
}
pub proof fn lemma_msb_1(v0: u64, x: u64, m: u64, x2: u64, m2: u64)
    requires msb_at(v0, x, m, 2), x >= 2u64 ==> m2 == m | 1, x < 2u64 ==> m2 == m, x2 == v0 >> m2
    ensures msb_at(v0, x2, m2, 1)
{
    assert(m < 64 && x == v0 >> m && (v0 >= 1 ==> x >= 1) && m & sub(2, 1) == 0 && (2u64 < 64 ==> x < 1u64 << 2u64) && (x >= (1u64 << 1u64) ==> m2 == m | 1) && (x < (1u64 << 1u64) ==> m2 == m) && x2 == v0 >> m2
        ==> m2 < 64 && x2 == v0 >> m2 && (v0 >= 1 ==> x2 >= 1) && m2 & sub(1, 1) == 0 && x2 < 1u64 << 1u64) by (bit_vector);
    assert(1u64 << 1u64 == 2u64) by (bit_vector);
}
pub proof fn lemma_msb_end(v0: u64, x: u64, m: u64)
    requires msb_at(v0, x, m, 1)
    ensures m == ilog(v0 as int) || v0 == 0, m < 64
{
    assert(1u64 << 1u64 == 2) by (bit_vector);
    if v0 >= 1 {
        lemma_shr64(v0, m);
        let p = p2(m as int);
        lemma_p2(m as int);
        lemma_fundamental_div_mod(v0 as int, p); lemma_mod_bound(v0 as int, p);
        assert(x as int == 1 && x as int == v0 as int / p);
        assert(p * (v0 as int / p) == p) by (nonlinear_arith) requires v0 as int / p == 1;
        lemma_ilog_unique(v0 as int, m as int);
    }
}
pub proof fn lemma_ilog_unique(v: int, m: int)
    requires m >= 0, p2(m) <= v < 2 * p2(m)
    ensures ilog(v) == m
    decreases m
{ lemma_p2(m); if m > 0 { lemma_ilog_unique(v / 2, m - 1); } }
pub proof fn lemma_shr64(x: u64, m: u64)
    requires m < 64
    ensures x >> m == x as int / p2(m as int)
    decreases m
{
    if m == 0 { assert(x >> 0u64 == x) by (bit_vector); }
    else {
        let n = (m - 1) as u64;
        lemma_shr64(x, n);
        assert(0 < m && m < 64 ==> x >> m == (x >> sub(m, 1)) / 2) by (bit_vector);
        lemma_p2(n as int);
        lemma_div_denominator(x as int, p2(n as int), 2);
        assert(p2(m as int) == p2(n as int) * 2);
    }
}
/// choosing between the two candidates
pub open spec fn al(t: int, s: int) -> int { t / s * s }
pub proof fn lemma_choose(p: int, c: int, s: int)
    requires 15258932000000000000 <= p <= 65535383934512647000000000000, c == cand(x32(p)), s > 0
    ensures 0 <= c <= MAXT(),
        p >= E24() ==> (c < MAXT() ==> tick_at(p, s) == (if p >= tick_price(c + 1) { al(c + 1, s) } else { al(c, s) })) && (al(c, s) == al(c + 1, s) ==> tick_at(p, s) == al(c, s)),
        p < E24() ==> tick_at(p, s) == (if p >= tick_price(-c) { al(-c, s) } else { al(-c - 1, s) }) && (al(-c, s) == al(-c - 1, s) ==> tick_at(p, s) == al(-c, s)),
        al(al(c, s), s) == al(c, s), al(al(c + 1, s), s) == al(c + 1, s), al(al(-c, s), s) == al(-c, s), al(al(-c - 1, s), s) == al(-c - 1, s), s == 1 ==> al(c, s) == c && al(c + 1, s) == c + 1 && al(-c, s) == -c && al(-c - 1, s) == -c - 1
{
    lemma_cands(p);
    if s == 1 { assert(c / 1 == c && (c + 1) / 1 == c + 1 && (-c) / 1 == -c && (-c - 1) / 1 == -c - 1); }
    lemma_align2(c, s); lemma_align2(c + 1, s); lemma_align2(-c, s); lemma_align2(-c - 1, s);
    let t = tick1(p);
    assert(is_tick1(t, p));
    if p < E24() { if c == 0 { assert(t == -1 || t == 0); lemma_tpr(0); assert(tp(0, 18) == 1000000000000) by (compute); } }
}
/// floor alignment is monotone: both candidates with the same aligned tick leave no choice
pub proof fn lemma_align(t: int, s: int) requires s > 0 ensures t - t % s == t / s * s
{ lemma_fundamental_div_mod(t, s); assert(s * (t / s) == t / s * s) by (nonlinear_arith); }
pub proof fn lemma_align2(t: int, s: int) requires s > 0 ensures (t / s * s) / s * s == t / s * s
{ lemma_div_multiples_vanish(t / s, s); assert(s * (t / s) == t / s * s) by (nonlinear_arith); }
} // verus!
} // mod vlog
