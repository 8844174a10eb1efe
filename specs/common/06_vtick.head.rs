// Tick prices (A02): the price of a tick as the product over the bits of |tick| (fixed point 1e12).
pub mod vtick {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use crate::prelude::{cdiv, tdiv, trem};
use crate::vmath::*;
verus! {
pub open spec fn MINP() -> int { 15258932000000000000 }
pub open spec fn MAXP() -> int { 65535383934512647000000000000 }
pub open spec fn MAXT() -> int { 221818 }
#[verifier::opaque]
pub open spec fn tick_fac(k: int) -> int {
    if k == 0 { 1000049998750 }
    else if k == 1 { 1000100000000 }
    else if k == 2 { 1000200010000 }
    else if k == 3 { 1000400060004 }
    else if k == 4 { 1000800280056 }
    else if k == 5 { 1001601200560 }
    else if k == 6 { 1003204964963 }
    else if k == 7 { 1006420201726 }
    else if k == 8 { 1012881622442 }
    else if k == 9 { 1025929181080 }
    else if k == 10 { 1052530684591 }
    else if k == 11 { 1107820842005 }
    else if k == 12 { 1227267017980 }
    else if k == 13 { 1506184333421 }
    else if k == 14 { 2268591246242 }
    else if k == 15 { 5146506242525 }
    else if k == 16 { 26486526504348 }
    else if k == 17 { 701536086265529 }
    else { 1000000000000 }
}
#[verifier::opaque]
pub open spec fn tick_bit(t: i32, k: int) -> bool {
    if k == 0 { t & 0x1 != 0 }
    else if k == 1 { t & 0x2 != 0 }
    else if k == 2 { t & 0x4 != 0 }
    else if k == 3 { t & 0x8 != 0 }
    else if k == 4 { t & 0x10 != 0 }
    else if k == 5 { t & 0x20 != 0 }
    else if k == 6 { t & 0x40 != 0 }
    else if k == 7 { t & 0x80 != 0 }
    else if k == 8 { t & 0x100 != 0 }
    else if k == 9 { t & 0x200 != 0 }
    else if k == 10 { t & 0x400 != 0 }
    else if k == 11 { t & 0x800 != 0 }
    else if k == 12 { t & 0x1000 != 0 }
    else if k == 13 { t & 0x2000 != 0 }
    else if k == 14 { t & 0x4000 != 0 }
    else if k == 15 { t & 0x8000 != 0 }
    else if k == 16 { t & 0x10000 != 0 }
    else if k == 17 { t & 0x20000 != 0 }
    else { false }
}
/// product over the first n bits
#[verifier::opaque]
pub open spec fn tick_prod(t: i32, n: nat) -> int decreases n {
    if n == 0 { 1000000000000 } else {
        let s = tick_prod(t, (n - 1) as nat);
        if tick_bit(t, n - 1) { s * tick_fac(n - 1) / 1000000000000 } else { s }
    }
}
pub proof fn lemma_prod0(t: i32) ensures tick_prod(t, 0) == 1000000000000 { reveal(tick_prod); }
pub proof fn lemma_prod_1(t: i32)
    ensures tick_prod(t, 1) == (if t & 0x1 != 0 { tick_prod(t, 0) * 1000049998750 / 1000000000000 } else { tick_prod(t, 0) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_2(t: i32)
    ensures tick_prod(t, 2) == (if t & 0x2 != 0 { tick_prod(t, 1) * 1000100000000 / 1000000000000 } else { tick_prod(t, 1) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_3(t: i32)
    ensures tick_prod(t, 3) == (if t & 0x4 != 0 { tick_prod(t, 2) * 1000200010000 / 1000000000000 } else { tick_prod(t, 2) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_4(t: i32)
    ensures tick_prod(t, 4) == (if t & 0x8 != 0 { tick_prod(t, 3) * 1000400060004 / 1000000000000 } else { tick_prod(t, 3) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_5(t: i32)
    ensures tick_prod(t, 5) == (if t & 0x10 != 0 { tick_prod(t, 4) * 1000800280056 / 1000000000000 } else { tick_prod(t, 4) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_6(t: i32)
    ensures tick_prod(t, 6) == (if t & 0x20 != 0 { tick_prod(t, 5) * 1001601200560 / 1000000000000 } else { tick_prod(t, 5) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_7(t: i32)
    ensures tick_prod(t, 7) == (if t & 0x40 != 0 { tick_prod(t, 6) * 1003204964963 / 1000000000000 } else { tick_prod(t, 6) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_8(t: i32)
    ensures tick_prod(t, 8) == (if t & 0x80 != 0 { tick_prod(t, 7) * 1006420201726 / 1000000000000 } else { tick_prod(t, 7) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_9(t: i32)
    ensures tick_prod(t, 9) == (if t & 0x100 != 0 { tick_prod(t, 8) * 1012881622442 / 1000000000000 } else { tick_prod(t, 8) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_10(t: i32)
    ensures tick_prod(t, 10) == (if t & 0x200 != 0 { tick_prod(t, 9) * 1025929181080 / 1000000000000 } else { tick_prod(t, 9) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_11(t: i32)
    ensures tick_prod(t, 11) == (if t & 0x400 != 0 { tick_prod(t, 10) * 1052530684591 / 1000000000000 } else { tick_prod(t, 10) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_12(t: i32)
    ensures tick_prod(t, 12) == (if t & 0x800 != 0 { tick_prod(t, 11) * 1107820842005 / 1000000000000 } else { tick_prod(t, 11) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_13(t: i32)
    ensures tick_prod(t, 13) == (if t & 0x1000 != 0 { tick_prod(t, 12) * 1227267017980 / 1000000000000 } else { tick_prod(t, 12) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_14(t: i32)
    ensures tick_prod(t, 14) == (if t & 0x2000 != 0 { tick_prod(t, 13) * 1506184333421 / 1000000000000 } else { tick_prod(t, 13) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_15(t: i32)
    ensures tick_prod(t, 15) == (if t & 0x4000 != 0 { tick_prod(t, 14) * 2268591246242 / 1000000000000 } else { tick_prod(t, 14) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_16(t: i32)
    ensures tick_prod(t, 16) == (if t & 0x8000 != 0 { tick_prod(t, 15) * 5146506242525 / 1000000000000 } else { tick_prod(t, 15) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_17(t: i32)
    ensures tick_prod(t, 17) == (if t & 0x10000 != 0 { tick_prod(t, 16) * 26486526504348 / 1000000000000 } else { tick_prod(t, 16) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub proof fn lemma_prod_18(t: i32)
    ensures tick_prod(t, 18) == (if t & 0x20000 != 0 { tick_prod(t, 17) * 701536086265529 / 1000000000000 } else { tick_prod(t, 17) })
{ reveal(tick_prod); reveal(tick_bit); reveal(tick_fac); }
pub open spec fn tick_fp(t: int) -> int { tick_prod(t as i32, 18) }
pub open spec fn tick_price(t: int) -> int {
    if t >= 0 { tick_fp(t) * E12() } else { (E12() * E12() / tick_fp(-t)) * E12() }
}

// ---- position amounts (A03) ----
pub open spec fn amount_x_spec(cur_tick: int, price: int, l: int, up: bool, upper: int, lower: int) -> int {
    if cur_tick < lower { dx(tick_price(lower), tick_price(upper), l, up) }
    else if cur_tick < upper { dx(price, tick_price(upper), l, up) } else { 0 }
}
pub open spec fn amount_y_spec(cur_tick: int, price: int, l: int, up: bool, upper: int, lower: int) -> int {
    if cur_tick < lower { 0 }
    else if cur_tick < upper { dy(tick_price(lower), price, l, up) } else { dy(tick_price(lower), tick_price(upper), l, up) }
}
pub open spec fn enough_spec(amt: int, p: int, l: int, fee: int, by_in: bool, xy: bool) -> bool {
    if l == 0 { true } else {
        let a = step_aaf(amt, by_in, fee);
        p != (if by_in { if xy { nx_add(p, l, a) } else { ny_add(p, l, a) } } else { if xy { ny_sub(p, l, a) } else { nx_sub(p, l, a) } })
    }
}
pub proof fn lemma_trem(a: int, b: int)
    ensures b > 0 ==> (trem(a, b) == 0) == (a % b == 0)
{
    if b > 0 {
        lemma_fundamental_div_mod(a, b);
        if a >= 0 {} else {
            lemma_fundamental_div_mod(-a, b);
            let q = (-a) / b;
            assert(b * (-q) == -(b * q)) by (nonlinear_arith);
            assert(trem(a, b) == -((-a) % b));
            if a % b == 0 {
                assert(-a == b * (-(a / b))) by (nonlinear_arith) requires a == b * (a / b);
                assert(-a == (-(a / b)) * b + 0) by (nonlinear_arith) requires -a == b * (-(a / b)); lemma_fundamental_div_mod_converse(-a, b, -(a / b), 0);
            }
            if (-a) % b == 0 {
                assert(a == b * (-q)) by (nonlinear_arith) requires -a == b * q;
                assert(a == (-q) * b + 0) by (nonlinear_arith) requires a == b * (-q); lemma_fundamental_div_mod_converse(a, b, -q, 0);
            }
        }
    }
}
pub proof fn lemma_max_tick(s: int) requires s >= 0
    ensures s > 0 ==> 0 <= max_tick(s) <= MAXT() && (-(MAXT() / s)) * s == -max_tick(s)
{ if s > 0 { lemma_floor(MAXT(), s); assert((-(MAXT() / s)) * s == -(MAXT() / s * s)) by (nonlinear_arith);
  assert(MAXT() / s * s >= 0) by (nonlinear_arith) requires s > 0, MAXT() / s >= 0; } }
/// the greatest tick whose price does not exceed p (prices strictly increase: vtickm)
pub open spec fn is_tick1(t: int, p: int) -> bool { -MAXT() <= t <= MAXT() && tick_price(t) <= p && (t < MAXT() ==> p < tick_price(t + 1)) }
pub open spec fn tick1(p: int) -> int { choose|t: int| is_tick1(t, p) }
/// the greatest multiple of the spacing not above that tick
pub open spec fn tick_at(p: int, s: int) -> int { tick1(p) / s * s }
pub open spec fn max_tick(s: int) -> int { MAXT() / s * s }
pub open spec fn valid_tick(t: int, s: int) -> bool { s > 0 && t % s == 0 && -max_tick(s) <= t <= max_tick(s) }
/// the price belongs to the interval of the (aligned) tick
pub open spec fn price_in_tick(t: int, s: int, p: int) -> bool {
    if t + s > MAXT() { p == tick_price(max_tick(s)) } else { tick_price(t) <= p < tick_price(t + s) }
}
} // verus!
} // mod vtick
