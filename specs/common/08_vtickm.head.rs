// A02: tick prices strictly increase over the whole range.
pub mod vtickm {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use crate::prelude::cdiv;
use crate::vmath::*;
use crate::vtick::*;
use crate::vtab::*;
verus! {
pub proof fn lemma_p2(n: int) requires 0 <= n ensures p2(n) > 0 decreases n { if n > 0 { lemma_p2(n - 1); } }
pub open spec fn DD() -> int { 49998000 }
pub proof fn lemma_tops(n: int)
    requires 0 <= n < 18
    ensures fac(n) > 1000000000000, (fac(n) - tp(p2(n) - 1, n)) * 1000000000000 >= tp(p2(n) - 1, n) * DD()
{
    assert forall|m: int| 0 <= m < 18 implies #[trigger] tops(m) by {
        assert(tops(0) && tops(1) && tops(2) && tops(3) && tops(4) && tops(5) && tops(6) && tops(7) && tops(8)) by (compute);
        assert(tops(9) && tops(10) && tops(11) && tops(12) && tops(13) && tops(14) && tops(15) && tops(16) && tops(17)) by (compute);
    }
    assert(tops(n));
}
pub open spec fn tops(n: int) -> bool { fac(n) > 1000000000000 && (fac(n) - tp(p2(n) - 1, n)) * 1000000000000 >= tp(p2(n) - 1, n) * DD() }
/// one more factor keeps the relative gap up to one unit of the last place
pub proof fn lemma_gap_step(s1: int, s2: int, f: int, d: int)
    requires s1 >= 1000000000000, s2 > s1, f > 1000000000000, d >= 0, (s2 - s1) * 1000000000000 >= s1 * d
    ensures ({ let t1 = s1 * f / 1000000000000; let t2 = s2 * f / 1000000000000;
        t1 >= 1000000000000 && (t2 - t1) * 1000000000000 >= t1 * (d - 1) && t2 > t1 })
{
    let e = 1000000000000int;
    let t1 = s1 * f / e; let t2 = s2 * f / e;
    lemma_fundamental_div_mod(s1 * f, e); lemma_fundamental_div_mod(s2 * f, e);
    assert(s1 * f >= e * e) by (nonlinear_arith) requires s1 >= e, f > e, e > 0;
    assert(t1 >= e) by (nonlinear_arith) requires s1 * f >= e * e, s1 * f == e * t1 + (s1 * f) % e, (s1 * f) % e < e, e == 1000000000000;
    assert(t2 * e > s2 * f - e && t1 * e <= s1 * f);
    // (t2 - t1) e > (s2 - s1) f - e
    let g = s2 - s1;
    assert(s2 * f - s1 * f == g * f) by (nonlinear_arith) requires g == s2 - s1;
    assert((t2 - t1) * e > g * f - e);
    assert(g * f >= f) by (nonlinear_arith) requires g >= 1, f > 0;
    assert(t2 > t1) by (nonlinear_arith) requires (t2 - t1) * e > f - e, f > e, e > 0;
    // g f >= t1 d
    assert(g * f * e >= t1 * d * e) by (nonlinear_arith) requires g * e >= s1 * d, t1 * e <= s1 * f, f > 0, d >= 0, e > 0;
    assert(g * f >= t1 * d) by (nonlinear_arith) requires g * f * e >= t1 * d * e, e > 0;
    assert(t1 * d - e >= t1 * (d - 1)) by (nonlinear_arith) requires t1 >= e;
}
pub proof fn lemma_tp_ge(a: int, n: int)
    requires 0 <= n <= 18, 0 <= a < p2(n)
    ensures tp(a, n) >= 1000000000000
    decreases n
{
    if n > 0 {
        if a >= p2(n - 1) {
            lemma_tp_ge(a - p2(n - 1), n - 1); lemma_tops(n - 1);
            let s = tp(a - p2(n - 1), n - 1); let f = fac(n - 1);
            assert(s * f >= 1000000000000 * 1000000000000) by (nonlinear_arith) requires s >= 1000000000000, f >= 1000000000000;
            lemma_div_is_ordered(1000000000000000000000000int, s * f, 1000000000000);
        } else { lemma_tp_ge(a, n - 1); }
    }
}
pub proof fn lemma_tp_mono(a: int, b: int, n: int)
    requires 0 <= n <= 18, 0 <= a < b < p2(n)
    ensures tp(b, n) > tp(a, n), (tp(b, n) - tp(a, n)) * 1000000000000 >= tp(a, n) * (DD() - n)
    decreases n
{
    if n > 0 {
        let h = p2(n - 1); let m = n - 1;
        lemma_p2(m);
        if b < h { lemma_tp_mono(a, b, m); lemma_tp_ge(a, m);
            assert(tp(a, m) * (DD() - m) >= tp(a, m) * (DD() - n)) by (nonlinear_arith) requires tp(a, m) > 0, m < n; }
        else if a >= h {
            lemma_tp_mono(a - h, b - h, m); lemma_tp_ge(a - h, m); lemma_tops(m);
            lemma_gap_step(tp(a - h, m), tp(b - h, m), fac(m), DD() - m);
        } else {
            lemma_tops(m);
            lemma_tp_ge(a, m); lemma_tp_ge(b - h, m);
            let x = tp(a, m); let top = tp(h - 1, m); let s = tp(b - h, m); let f = fac(m);
            if a < h - 1 { lemma_tp_mono(a, h - 1, m); }
            assert(x <= top);
            assert(s * f >= 1000000000000 * f) by (nonlinear_arith) requires s >= 1000000000000, f > 0;
            lemma_div_is_ordered(1000000000000 * f, s * f, 1000000000000);
            lemma_div_multiples_vanish(f, 1000000000000);
            let y = tp(b, n);
            assert(y >= f);
            assert((y - x) * 1000000000000 >= x * DD()) by (nonlinear_arith) requires y >= f, x <= top, (f - top) * 1000000000000 >= top * DD(), DD() > 0, x > 0;
            assert(x * DD() >= x * (DD() - n)) by (nonlinear_arith) requires x > 0, n > 0;
            assert(y > x) by (nonlinear_arith) requires (y - x) * 1000000000000 >= x * DD(), x > 0, DD() > 0;
        }
    }
}
/// the masks test the binary digits
pub proof fn lemma_bit_0(t: i32) requires 0 <= t ensures tick_bit(t, 0) == ((t as int / p2(0)) % 2 == 1)
{ reveal(tick_bit); assert(p2(0) == 0x1) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x1 != 0) == (((t as u32) / 0x1) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x1) as int == t as int / 0x1); }
pub proof fn lemma_bit_1(t: i32) requires 0 <= t ensures tick_bit(t, 1) == ((t as int / p2(1)) % 2 == 1)
{ reveal(tick_bit); assert(p2(1) == 0x2) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x2 != 0) == (((t as u32) / 0x2) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x2) as int == t as int / 0x2); }
pub proof fn lemma_bit_2(t: i32) requires 0 <= t ensures tick_bit(t, 2) == ((t as int / p2(2)) % 2 == 1)
{ reveal(tick_bit); assert(p2(2) == 0x4) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x4 != 0) == (((t as u32) / 0x4) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x4) as int == t as int / 0x4); }
pub proof fn lemma_bit_3(t: i32) requires 0 <= t ensures tick_bit(t, 3) == ((t as int / p2(3)) % 2 == 1)
{ reveal(tick_bit); assert(p2(3) == 0x8) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x8 != 0) == (((t as u32) / 0x8) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x8) as int == t as int / 0x8); }
pub proof fn lemma_bit_4(t: i32) requires 0 <= t ensures tick_bit(t, 4) == ((t as int / p2(4)) % 2 == 1)
{ reveal(tick_bit); assert(p2(4) == 0x10) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x10 != 0) == (((t as u32) / 0x10) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x10) as int == t as int / 0x10); }
pub proof fn lemma_bit_5(t: i32) requires 0 <= t ensures tick_bit(t, 5) == ((t as int / p2(5)) % 2 == 1)
{ reveal(tick_bit); assert(p2(5) == 0x20) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x20 != 0) == (((t as u32) / 0x20) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x20) as int == t as int / 0x20); }
pub proof fn lemma_bit_6(t: i32) requires 0 <= t ensures tick_bit(t, 6) == ((t as int / p2(6)) % 2 == 1)
{ reveal(tick_bit); assert(p2(6) == 0x40) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x40 != 0) == (((t as u32) / 0x40) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x40) as int == t as int / 0x40); }
pub proof fn lemma_bit_7(t: i32) requires 0 <= t ensures tick_bit(t, 7) == ((t as int / p2(7)) % 2 == 1)
{ reveal(tick_bit); assert(p2(7) == 0x80) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x80 != 0) == (((t as u32) / 0x80) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x80) as int == t as int / 0x80); }
pub proof fn lemma_bit_8(t: i32) requires 0 <= t ensures tick_bit(t, 8) == ((t as int / p2(8)) % 2 == 1)
{ reveal(tick_bit); assert(p2(8) == 0x100) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x100 != 0) == (((t as u32) / 0x100) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x100) as int == t as int / 0x100); }
pub proof fn lemma_bit_9(t: i32) requires 0 <= t ensures tick_bit(t, 9) == ((t as int / p2(9)) % 2 == 1)
{ reveal(tick_bit); assert(p2(9) == 0x200) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x200 != 0) == (((t as u32) / 0x200) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x200) as int == t as int / 0x200); }
pub proof fn lemma_bit_10(t: i32) requires 0 <= t ensures tick_bit(t, 10) == ((t as int / p2(10)) % 2 == 1)
{ reveal(tick_bit); assert(p2(10) == 0x400) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x400 != 0) == (((t as u32) / 0x400) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x400) as int == t as int / 0x400); }
pub proof fn lemma_bit_11(t: i32) requires 0 <= t ensures tick_bit(t, 11) == ((t as int / p2(11)) % 2 == 1)
{ reveal(tick_bit); assert(p2(11) == 0x800) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x800 != 0) == (((t as u32) / 0x800) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x800) as int == t as int / 0x800); }
pub proof fn lemma_bit_12(t: i32) requires 0 <= t ensures tick_bit(t, 12) == ((t as int / p2(12)) % 2 == 1)
{ reveal(tick_bit); assert(p2(12) == 0x1000) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x1000 != 0) == (((t as u32) / 0x1000) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x1000) as int == t as int / 0x1000); }
pub proof fn lemma_bit_13(t: i32) requires 0 <= t ensures tick_bit(t, 13) == ((t as int / p2(13)) % 2 == 1)
{ reveal(tick_bit); assert(p2(13) == 0x2000) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x2000 != 0) == (((t as u32) / 0x2000) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x2000) as int == t as int / 0x2000); }
pub proof fn lemma_bit_14(t: i32) requires 0 <= t ensures tick_bit(t, 14) == ((t as int / p2(14)) % 2 == 1)
{ reveal(tick_bit); assert(p2(14) == 0x4000) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x4000 != 0) == (((t as u32) / 0x4000) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x4000) as int == t as int / 0x4000); }
pub proof fn lemma_bit_15(t: i32) requires 0 <= t ensures tick_bit(t, 15) == ((t as int / p2(15)) % 2 == 1)
{ reveal(tick_bit); assert(p2(15) == 0x8000) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x8000 != 0) == (((t as u32) / 0x8000) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x8000) as int == t as int / 0x8000); }
pub proof fn lemma_bit_16(t: i32) requires 0 <= t ensures tick_bit(t, 16) == ((t as int / p2(16)) % 2 == 1)
{ reveal(tick_bit); assert(p2(16) == 0x10000) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x10000 != 0) == (((t as u32) / 0x10000) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x10000) as int == t as int / 0x10000); }
pub proof fn lemma_bit_17(t: i32) requires 0 <= t ensures tick_bit(t, 17) == ((t as int / p2(17)) % 2 == 1)
{ reveal(tick_bit); assert(p2(17) == 0x20000) by (compute); let u = t as u32; assert(t >= 0 ==> ((t & 0x20000 != 0) == (((t as u32) / 0x20000) % 2 == 1))) by (bit_vector); assert(u as int == t as int); assert((u / 0x20000) as int == t as int / 0x20000); }
pub proof fn lemma_bit(t: i32, k: int)
    requires 0 <= t, 0 <= k < 18
    ensures tick_bit(t, k) == ((t as int / p2(k)) % 2 == 1)
{
    if k == 0 { lemma_bit_0(t); } else if k == 1 { lemma_bit_1(t); } else if k == 2 { lemma_bit_2(t); } else if k == 3 { lemma_bit_3(t); } else if k == 4 { lemma_bit_4(t); } else if k == 5 { lemma_bit_5(t); } else if k == 6 { lemma_bit_6(t); } else if k == 7 { lemma_bit_7(t); } else if k == 8 { lemma_bit_8(t); } else if k == 9 { lemma_bit_9(t); } else if k == 10 { lemma_bit_10(t); } else if k == 11 { lemma_bit_11(t); } else if k == 12 { lemma_bit_12(t); } else if k == 13 { lemma_bit_13(t); } else if k == 14 { lemma_bit_14(t); } else if k == 15 { lemma_bit_15(t); } else if k == 16 { lemma_bit_16(t); } else if k == 17 { lemma_bit_17(t); }
}
pub proof fn lemma_prod_tp(t: i32, n: int)
    requires 0 <= t <= 221818, 0 <= n <= 18
    ensures tick_prod(t, n as nat) == tp(t as int % p2(n), n)
    decreases n
{
    reveal(tick_prod); reveal(tick_fac);
    lemma_p2(n);
    if n > 0 {
        lemma_prod_tp(t, n - 1);
        lemma_bit(t, n - 1);
        let h = p2(n - 1);
        lemma_p2(n - 1);
        lemma_mod_breakdown(t as int, h, 2);
        assert(p2(n) == h * 2);
        let b = (t as int / h) % 2;
        lemma_mod_bound(t as int, h);
        assert(b == 0 || b == 1);
        assert(tick_bit(t, n - 1) == (b == 1));
        assert(h * b == (if b == 1 { h } else { 0 })) by (nonlinear_arith) requires b == 0 || b == 1;
        assert(tick_fac(n - 1) == fac(n - 1));
    }
}
pub proof fn lemma_fp(t: int)
    requires 0 <= t <= MAXT()
    ensures tick_fp(t) == tp(t, 18), tick_fp(t) >= 1000000000000, tick_fp(t) <= 65535383934512647
{
    assert(p2(18) == 0x40000) by (compute);
    lemma_prod_tp(t as i32, 18);
    lemma_small_mod(t as nat, 0x40000);
    lemma_tp_ge(t, 18);
    assert(tp(221818, 18) == 65535383934512647) by (compute);
    if t < MAXT() { lemma_tp_mono(t, MAXT(), 18); }
}
pub proof fn lemma_tick_price(a: int, b: int)
    requires -MAXT() <= a < b <= MAXT()
    ensures tick_price(a) < tick_price(b)
{
    if a >= 0 {
        lemma_fp(a); lemma_fp(b);
        assert(p2(18) == 0x40000) by (compute);
        lemma_tp_mono(a, b, 18);
        assert(tick_fp(a) * E12() < tick_fp(b) * E12()) by (nonlinear_arith) requires tick_fp(a) < tick_fp(b), E12() > 0;
    } else if b >= 0 {
        lemma_fp(-a); lemma_fp(b);
        lemma_fp(0);
        assert(p2(18) == 0x40000) by (compute);
        if -a > 0 { lemma_tp_mono(0, -a, 18); }
        let q = E12() * E12() / tick_fp(-a);
        lemma_fundamental_div_mod(E12() * E12(), tick_fp(-a));
        assert(tp(0, 18) == 1000000000000) by (compute);
        assert(q < E12()) by (nonlinear_arith) requires E12() * E12() == tick_fp(-a) * q + (E12() * E12()) % tick_fp(-a), (E12() * E12()) % tick_fp(-a) >= 0, tick_fp(-a) > E12(), E12() > 0;
        assert(q * E12() < tick_fp(b) * E12()) by (nonlinear_arith) requires q < tick_fp(b), E12() > 0;
    } else {
        lemma_fp(-a); lemma_fp(-b);
        assert(p2(18) == 0x40000) by (compute);
        lemma_tp_mono(-b, -a, 18);
        let p1 = tick_fp(-b); let p2_ = tick_fp(-a); let n = E12() * E12();
        let q1 = n / p1; let q2 = n / p2_;
        lemma_fundamental_div_mod(n, p1); lemma_fundamental_div_mod(n, p2_);
        lemma_mod_bound(n, p1); lemma_mod_bound(n, p2_);
        // n (p2 - p1) >= p1 p2
        let d = p2_ - p1;
        assert(n == 1000000000000 * 1000000000000);
        assert(n * d >= p1 * p2_) by (nonlinear_arith)
            requires d * 1000000000000 >= p1 * (DD() - 18), n == 1000000000000 * 1000000000000, p2_ <= 65535383934512647, p1 > 0, DD() == 49998000;
        // q2 p2 <= n, so (q2 + 1) p1 p2 <= n p1 + p1 p2 <= n p2
        assert((q2 + 1) * p1 <= n) by (nonlinear_arith) requires q2 * p2_ <= n, n * d >= p1 * p2_, d == p2_ - p1, p1 > 0, p2_ > 0, q2 >= 0;
        assert(q2 < q1) by (nonlinear_arith) requires (q2 + 1) * p1 <= n, n < q1 * p1 + p1, p1 > 0;
        assert(q2 * E12() < q1 * E12()) by (nonlinear_arith) requires q2 < q1, E12() > 0;
    }
}
/// A02: extremes and range
pub proof fn lemma_price_range(t: int)
    requires -MAXT() <= t <= MAXT()
    ensures 15258932000000000000 <= tick_price(t) <= 65535383934512647000000000000, tick_price(-MAXT()) == 15258932000000000000, tick_price(MAXT()) == 65535383934512647000000000000
{
    lemma_fp(MAXT());
    assert(tp(221818, 18) == 65535383934512647) by (compute);
    assert(1000000000000000000000000int / 65535383934512647 == 15258932) by (compute);
    if t > -MAXT() { lemma_tick_price(-MAXT(), t); }
    if t < MAXT() { lemma_tick_price(t, MAXT()); }
}
pub proof fn lemma_tick1(t: int, p: int)
    requires is_tick1(t, p)
    ensures tick1(p) == t
{
    let u = tick1(p);
    assert(is_tick1(u, p));
    if u < t { if u + 1 < t { lemma_tick_price(u + 1, t); } }
    if t < u { if t + 1 < u { lemma_tick_price(t + 1, u); } }
}
/// A02: the aligned tick is the greatest multiple of the spacing whose price does not exceed p
pub proof fn lemma_tick_at(t: int, p: int, s: int)
    requires is_tick1(t, p), s > 0
    ensures tick_at(p, s) % s == 0, tick_at(p, s) <= t, t < tick_at(p, s) + s,
        tick_at(p, s) >= -MAXT() ==> tick_price(tick_at(p, s)) <= p,
        forall|u: int| #![trigger tick_price(u)] -MAXT() <= u <= MAXT() && u % s == 0 && tick_price(u) <= p ==> u <= tick_at(p, s)
{
    lemma_tick1(t, p);
    let a = tick_at(p, s);
    lemma_fundamental_div_mod(t, s); lemma_mod_bound(t, s);
    assert(a == s * (t / s)) by (nonlinear_arith) requires a == t / s * s;
    lemma_mod_multiples_basic(t / s, s);
    if a >= -MAXT() && a < t { lemma_tick_price(a, t); }
    assert forall|u: int| #![trigger tick_price(u)] -MAXT() <= u <= MAXT() && u % s == 0 && tick_price(u) <= p implies u <= a by {
        if u > t { if t + 1 < u { lemma_tick_price(t + 1, u); } }
        lemma_fundamental_div_mod(u, s);
        lemma_div_is_ordered(u, t, s);
        assert(u <= a) by (nonlinear_arith) requires u == s * (u / s), u / s <= t / s, a == s * (t / s), s > 0;
    }
}
} // verus!
} // mod vtickm
