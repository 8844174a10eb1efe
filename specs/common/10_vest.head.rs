// Liquidity estimates (A18).
pub mod vest {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use crate::prelude::*;
verus! {
/// a pool at price p may have current tick c
pub open spec fn at_tick(c: int, sp: int, p: int) -> bool {
    &&& sp > 0 && c % sp == 0 && -max_tick(sp) <= c <= max_tick(sp)
    &&& tick_price(c) <= p && (c + sp <= MAXT() ==> p <= tick_price(c + sp))
}
/// opening a position with liquidity l costs at most x (at most y), in every state a pool at this price can be in
pub open spec fn x_covers(x: int, l: int, p: int, lo: int, up: int) -> bool {
    forall|c: int, sp: int| #[trigger] at_tick(c, sp, p) && valid_tick(lo, sp) && valid_tick(up, sp) && lo < up ==> amount_x_spec(c, p, l, true, up, lo) <= x
}
pub open spec fn y_covers(y: int, l: int, p: int, lo: int, up: int) -> bool {
    forall|c: int, sp: int| #[trigger] at_tick(c, sp, p) && valid_tick(lo, sp) && valid_tick(up, sp) && lo < up ==> amount_y_spec(c, p, l, true, up, lo) <= y
}
/// the part of the range [a, b] above / below the price p
pub open spec fn xl(p: int, a: int) -> int { if p < a { a } else { p } }
pub open spec fn yh(p: int, b: int) -> int { if b <= p { b } else { p } }
pub open spec fn x_cost_ok(x: int, l: int, p: int, a: int, b: int) -> bool { dx_up(xl(p, a), b, l) <= x }
pub open spec fn y_cost_ok(y: int, l: int, p: int, a: int, b: int) -> bool { dy_up(a, yh(p, b), l) <= y }

pub proof fn lemma_est_x(x: int, a: int, b: int, l: int)
    requires x >= 0, l >= 0, a >= 15258932000000000000, b >= 15258932000000000000, b > a, l == x * (a * b / E24()) * E6() / (b - a)
    ensures dx_up(a, b, l) <= x, forall|m: int| 0 <= m <= l ==> #[trigger] dx_up(a, b, m) <= x
{
    let n = a * b / E24();
    lemma_min_price_sq(a);
    assert(a * b >= a * a) by (nonlinear_arith) requires b > a, a >= 15258932000000000000;
    lemma_floor_ge(a * b, E24(), 1);
    assert forall|m: int| 0 <= m <= l implies #[trigger] dx_up(a, b, m) <= x by {
        let d = vabs(a - b);
        let t = x * n * E6();
        assert(d == b - a);
        lemma_floor(t, d);
        assert(d * m <= t) by (nonlinear_arith) requires l * d <= t, m <= l, d > 0;
        let q = d * m / E6();
        lemma_floor(d * m, E6());
        assert(q <= x * n) by (nonlinear_arith) requires q * 1000000 <= d * m, d * m <= x * n * 1000000;
        assert(q * E24() <= (x * E24()) * n) by (nonlinear_arith) requires q <= x * n;
        lemma_cdiv_le(q * E24(), n, x * E24());
        lemma_cdiv_le(cdiv(q * E24(), n), E24(), x);
    }
    assert(dx_up(a, b, l) <= x);
}
pub proof fn lemma_est_y(y: int, a: int, b: int, l: int)
    requires y >= 0, l >= 0, b > a, l == y * E24() * E6() / (b - a)
    ensures dy_up(a, b, l) <= y, forall|m: int| 0 <= m <= l ==> #[trigger] dy_up(a, b, m) <= y
{
    assert forall|m: int| 0 <= m <= l implies #[trigger] dy_up(a, b, m) <= y by {
        let d = vabs(a - b);
        assert(d == b - a);
        let t = y * E24() * E6();
        lemma_floor(t, d);
        assert(d * m <= t) by (nonlinear_arith) requires l * d <= t, m <= l, d > 0;
        assert(t == (y * E24()) * E6());
        lemma_cdiv_le(d * m, E6(), y * E24());
        lemma_cdiv_le(cdiv(d * m, E6()), E24(), y);
    }
    assert(dy_up(a, b, l) <= y);
}
pub open spec fn est_x(x: int, a: int, b: int) -> int { x * (a * b / E24()) * E6() / (b - a) }
pub open spec fn est_y(y: int, a: int, b: int) -> int { y * E24() * E6() / (b - a) }
/// the estimates in closed form: liquidity, and the amount of the other token that goes with it
pub open spec fn est_by_x(x: int, lo: int, hi: int, cur: int) -> int { est_x(x, if cur < lo { lo } else { cur }, hi) }
pub open spec fn est_by_y(y: int, lo: int, hi: int, cur: int) -> int { est_y(y, lo, if hi <= cur { hi } else { cur }) }
pub open spec fn est_with_y(l: int, lo: int, hi: int, cur: int, up: bool) -> int { if cur < lo { 0 } else { let t = (cur - lo) * (l / E6()); if up { cdiv(t, E24()) } else { t / E24() } } }
pub open spec fn est_with_x(l: int, lo: int, hi: int, cur: int, up: bool) -> int { if hi <= cur { 0 } else { let c = (l * (hi - cur) / E24()) * E24() / (cur * hi / E24()); if up { cdiv(c, E6()) } else { c / E6() } } }
pub proof fn lemma_est_den(p: int, b: int) requires p >= 0, b >= 0 ensures (p * b / E24()) * E24() / E24() == p * b / E24(), p >= 15258932000000000000 && b >= 15258932000000000000 ==> p * b / E24() > 0
{
    lemma_div_multiples_vanish(p * b / E24(), E24());
    if p >= 15258932000000000000 && b >= 15258932000000000000 {
        assert(p * b >= 15258932000000000000 * 15258932000000000000) by (nonlinear_arith) requires p >= 15258932000000000000, b >= 15258932000000000000;
        lemma_div_is_ordered(E24(), p * b, E24());
        assert(E24() / E24() == 1);
    }
}
pub proof fn lemma_x_cost(x: int, p: int, a: int, b: int)
    requires x >= 0, p >= 0
    ensures
        (a * b / E24()) * E24() / E24() == a * b / E24(), (p * b / E24()) * E24() / E24() == p * b / E24(),
        a >= 15258932000000000000 && a < b && p <= b && xl(p, a) < b ==> forall|m: int| 0 <= m <= est_x(x, xl(p, a), b) ==> #[trigger] x_cost_ok(x, m, p, a, b)
{
    lemma_div_multiples_vanish(a * b / E24(), E24()); lemma_div_multiples_vanish(p * b / E24(), E24());
    if a >= 15258932000000000000 && a < b && p <= b && xl(p, a) < b {
        let c = xl(p, a); let l = est_x(x, c, b);
        if l >= 0 {
            lemma_est_x(x, c, b, l);
            assert forall|m: int| 0 <= m <= est_x(x, xl(p, a), b) implies #[trigger] x_cost_ok(x, m, p, a, b) by { assert(dx_up(c, b, m) <= x); }
        }
    }
}
pub proof fn lemma_y_cost(y: int, p: int, a: int, b: int)
    requires y >= 0
    ensures a <= p && a < b && a < yh(p, b) ==> forall|m: int| 0 <= m <= est_y(y, a, yh(p, b)) ==> #[trigger] y_cost_ok(y, m, p, a, b)
{
    if a <= p && a < b && a < yh(p, b) {
        let c = yh(p, b); let l = est_y(y, a, c);
        if l >= 0 {
            lemma_est_y(y, a, c, l);
            assert forall|m: int| 0 <= m <= est_y(y, a, yh(p, b)) implies #[trigger] y_cost_ok(y, m, p, a, b) by { assert(dy_up(a, c, m) <= y); }
        }
    }
}
pub proof fn lemma_tick_le(a: int, b: int)
    requires -MAXT() <= a <= b <= MAXT()
    ensures tick_price(a) <= tick_price(b)
{ if a < b { lemma_tick_price(a, b); } }
pub proof fn lemma_next_aligned(c: int, u: int, sp: int)
    requires sp > 0, c % sp == 0, u % sp == 0, c < u
    ensures c + sp <= u
{
    lemma_fundamental_div_mod(c, sp); lemma_fundamental_div_mod(u, sp);
    assert(u / sp >= c / sp + 1) by (nonlinear_arith) requires sp * (u / sp) == u, sp * (c / sp) == c, c < u, sp > 0;
    assert(sp * (u / sp) >= sp * (c / sp) + sp) by (nonlinear_arith) requires u / sp >= c / sp + 1, sp > 0;
}
/// from prices to the pool's current tick
pub proof fn lemma_x_covers(x: int, l: int, p: int, lo: int, up: int)
    requires x >= 0, -MAXT() <= lo, lo < up ==> up <= MAXT(), lo < up && p <= tick_price(up) ==> x_cost_ok(x, l, p, tick_price(lo), tick_price(up))
    ensures x_covers(x, l, p, lo, up)
{
    assert forall|c: int, sp: int| #[trigger] at_tick(c, sp, p) && valid_tick(lo, sp) && valid_tick(up, sp) && lo < up implies amount_x_spec(c, p, l, true, up, lo) <= x by {
        lemma_max_tick_le(sp);
        if c < lo {
            lemma_next_aligned(c, lo, sp);
            lemma_tick_le(c + sp, lo); lemma_tick_price(lo, up);
        } else if c < up {
            lemma_next_aligned(c, up, sp);
            lemma_tick_le(lo, c); lemma_tick_le(c + sp, up);
        }
    }
}
pub proof fn lemma_y_covers(y: int, l: int, p: int, lo: int, up: int)
    requires y >= 0, -MAXT() <= lo, lo < up ==> up <= MAXT(), lo < up && tick_price(lo) <= p ==> y_cost_ok(y, l, p, tick_price(lo), tick_price(up))
    ensures y_covers(y, l, p, lo, up)
{
    assert forall|c: int, sp: int| #[trigger] at_tick(c, sp, p) && valid_tick(lo, sp) && valid_tick(up, sp) && lo < up implies amount_y_spec(c, p, l, true, up, lo) <= y by {
        lemma_max_tick_le(sp);
        if c < lo {
        } else if c < up {
            lemma_next_aligned(c, up, sp);
            lemma_tick_le(lo, c); lemma_tick_le(c + sp, up);
        } else {
            lemma_tick_le(lo, c); lemma_tick_le(up, c);
        }
    }
}
/// all of it for one pair of ticks: what the estimates by price say about positions
pub proof fn lemma_covers(x: int, y: int, p: int, lo: int, up: int)
    requires x >= 0, y >= 0
    ensures
        -MAXT() <= lo <= MAXT() && -MAXT() <= up <= MAXT() ==> tick_price(lo) >= 15258932000000000000 && (lo < up ==> tick_price(lo) < tick_price(up)),
        forall|l: int| -MAXT() <= lo && up <= MAXT() && (lo < up && p <= tick_price(up) ==> x_cost_ok(x, l, p, tick_price(lo), tick_price(up))) ==> #[trigger] x_covers(x, l, p, lo, up),
        forall|l: int| -MAXT() <= lo && up <= MAXT() && (lo < up && tick_price(lo) <= p ==> y_cost_ok(y, l, p, tick_price(lo), tick_price(up))) ==> #[trigger] y_covers(y, l, p, lo, up),
{
    if -MAXT() <= lo <= MAXT() && -MAXT() <= up <= MAXT() { lemma_price_range(lo); if lo < up { lemma_tick_price(lo, up); } }
    assert forall|l: int| -MAXT() <= lo && up <= MAXT() && (lo < up && p <= tick_price(up) ==> x_cost_ok(x, l, p, tick_price(lo), tick_price(up))) implies #[trigger] x_covers(x, l, p, lo, up) by { lemma_x_covers(x, l, p, lo, up); }
    assert forall|l: int| -MAXT() <= lo && up <= MAXT() && (lo < up && tick_price(lo) <= p ==> y_cost_ok(y, l, p, tick_price(lo), tick_price(up))) implies #[trigger] y_covers(y, l, p, lo, up) by { lemma_y_covers(y, l, p, lo, up); }
}
pub proof fn lemma_max_tick_le(sp: int)
    requires sp > 0
    ensures max_tick(sp) <= MAXT()
{ lemma_floor(MAXT(), sp); }
} // verus!
} // mod vest
