// Solvency (A21): what a pool owes never exceeds what it holds.
pub mod vsol {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use crate::prelude::*;
use crate::vinv::*;
use crate::{FeeTier, Pool, PoolKey, Position, Tick, UpdatePoolTick, SwapResult, Config};
use crate::interface::{CalculateSwapResult, SwapHop};
use crate::math::types::token_amount::TokenAmount;
use crate::math::types::sqrt_price::SqrtPrice;
use crate::msg::ExecuteMsg;
use crate::entrypoints::common::TimeStampExt;
verus! {
// ---- real-valued sums over positions ----
pub open spec fn rsum(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> real) -> real
    decreases m.dom().len()
    via rsum_dec
{
    if m.dom().len() == 0 { 0real } else { let k = m.dom().choose(); f(m[k]) + rsum(m.remove(k), f) }
}
#[via_fn]
proof fn rsum_dec(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> real) { 
  if m.dom().len() != 0 { let k = m.dom().choose(); assert(m.dom().contains(k)); assert(m.remove(k).dom() =~= m.dom().remove(k)); }
}
pub proof fn lemma_rsum_remove(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> real, k: Seq<u8>)
    requires m.contains_key(k)
    ensures rsum(m, f) == f(m[k]) + rsum(m.remove(k), f)
    decreases m.dom().len()
{
    let j = m.dom().choose();
    assert(m.dom().contains(k));
    assert(m.dom().len() > 0) by { if m.dom().len() == 0 { assert(m.dom() =~= Set::<Seq<u8>>::empty()); } }
    assert(m.dom().contains(j));
    assert(m.remove(j).dom() =~= m.dom().remove(j));
    assert(m.remove(k).dom() =~= m.dom().remove(k));
    if j != k {
        lemma_rsum_remove(m.remove(j), f, k);
        lemma_rsum_remove(m.remove(k), f, j);
        assert(m.remove(j).remove(k) =~= m.remove(k).remove(j));
    }
}
pub proof fn lemma_rsum_insert(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> real, k: Seq<u8>, p: Position)
    ensures rsum(m.insert(k, p), f) == f(p) + rsum(m, f) - (if m.contains_key(k) { f(m[k]) } else { 0real })
{
    let n = m.insert(k, p);
    assert(n.dom() =~= m.dom().insert(k));
    lemma_rsum_remove(n, f, k);
    if m.contains_key(k) { lemma_rsum_remove(m, f, k); assert(n.remove(k) =~= m.remove(k)); } else { assert(n.remove(k) =~= m); }
}
/// h = f + g pointwise
pub proof fn lemma_rsum_add(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> real, g: spec_fn(Position) -> real, h: spec_fn(Position) -> real)
    requires forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> h(m[k]) == f(m[k]) + g(m[k])
    ensures rsum(m, h) == rsum(m, f) + rsum(m, g)
    decreases m.dom().len()
{
    if m.dom().len() > 0 {
        let k = m.dom().choose();
        assert(m.contains_key(k));
        let n = m.remove(k);
        assert(n.dom() =~= m.dom().remove(k));
        assert forall|j: Seq<u8>| #[trigger] n.contains_key(j) implies h(n[j]) == f(n[j]) + g(n[j]) by { assert(m.contains_key(j)); }
        lemma_rsum_add(n, f, g, h);
    }
}
pub proof fn lemma_rsum_eq(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> real, g: spec_fn(Position) -> real)
    requires forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> f(m[k]) == g(m[k])
    ensures rsum(m, f) == rsum(m, g)
    decreases m.dom().len()
{
    if m.dom().len() > 0 {
        let k = m.dom().choose();
        assert(m.contains_key(k));
        let n = m.remove(k);
        assert(n.dom() =~= m.dom().remove(k));
        assert forall|j: Seq<u8>| #[trigger] n.contains_key(j) implies f(n[j]) == g(n[j]) by { assert(m.contains_key(j)); }
        lemma_rsum_eq(n, f, g);
    }
}

pub proof fn lemma_rsum_le(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> real, g: spec_fn(Position) -> real, h: spec_fn(Position) -> real)
    requires forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> h(m[k]) <= f(m[k]) + g(m[k])
    ensures rsum(m, h) <= rsum(m, f) + rsum(m, g)
    decreases m.dom().len()
{
    if m.dom().len() > 0 {
        let k = m.dom().choose();
        assert(m.contains_key(k));
        let n = m.remove(k);
        assert(n.dom() =~= m.dom().remove(k));
        assert forall|j: Seq<u8>| #[trigger] n.contains_key(j) implies h(n[j]) <= f(n[j]) + g(n[j]) by { assert(m.contains_key(j)); }
        lemma_rsum_le(n, f, g, h);
    }
}
pub proof fn lemma_rsum_zero(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> real)
    requires forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> f(m[k]) == 0real
    ensures rsum(m, f) == 0real
{ lemma_rsum_add(m, f, f, f); }
pub proof fn lemma_rsum_pos(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> real)
    requires forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> f(m[k]) >= 0real
    ensures rsum(m, f) >= 0real
    decreases m.dom().len()
{
    if m.dom().len() > 0 {
        let k = m.dom().choose();
        assert(m.contains_key(k));
        let n = m.remove(k);
        assert(n.dom() =~= m.dom().remove(k));
        assert forall|j: Seq<u8>| #[trigger] n.contains_key(j) implies f(n[j]) >= 0real by { assert(m.contains_key(j)); }
        lemma_rsum_pos(n, f);
    }
}
/// liquidity times a factor
pub open spec fn scaled(f: spec_fn(Position) -> int, d: real) -> spec_fn(Position) -> real { |p: Position| (f(p) as real) * d }
pub proof fn lemma_rsum_scale(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> int, d: real)
    ensures rsum(m, scaled(f, d)) == (psum(m, f) as real) * d
    decreases m.dom().len()
{
    if m.dom().len() > 0 {
        let k = m.dom().choose();
        assert(m.contains_key(k));
        let n = m.remove(k);
        assert(n.dom() =~= m.dom().remove(k));
        lemma_rsum_scale(n, f, d);
        let (x, y) = (f(m[k]) as real, psum(n, f) as real);
        assert(psum(m, f) == f(m[k]) + psum(n, f));
        assert((f(m[k]) + psum(n, f)) as real == x + y);
        assert((x + y) * d == x * d + y * d) by (nonlinear_arith);
        assert(scaled(f, d)(m[k]) == x * d);
        assert(rsum(m, scaled(f, d)) == scaled(f, d)(m[k]) + rsum(n, scaled(f, d)));
    } else { assert(0real * d == 0real) by (nonlinear_arith); assert(psum(m, f) as real == 0real); }
}
// ---- exact values ----
pub open spec fn rinv(p: int) -> real { 1real / (p as real) }
pub open spec fn KX() -> real { E18() as real }
pub open spec fn KY() -> real { 1real / ((E24() * E6()) as real) }
/// what one rounding in a computed x amount can lose: less than 10^-14 of a base unit
pub open spec fn EPS() -> real { 1real / 100000000000000real }
pub proof fn lemma_rmul(a: int, b: int) ensures (a * b) as real == (a as real) * (b as real) { assert((a * b) as real == (a as real) * (b as real)) by (nonlinear_arith); }
pub proof fn lemma_rinv_diff(a: real, b: real) requires 0real < a, 0real < b ensures 1real / a - 1real / b == (b - a) / (a * b) {
    assert(1real / a - 1real / b == (b - a) / (a * b)) by (nonlinear_arith) requires a > 0real, b > 0real;
}
/// n = c ((b - a) l) and v = l c (1/a - 1/b): v (a b) = n
pub proof fn lemma_xval(a: real, b: real, l: real, c: real) -> (m: real)
    requires a > 0real, b > 0real
    ensures m == a * b, m > 0real, (l * c * (1real / a - 1real / b)) * m == c * ((b - a) * l)
{
    let d = 1real / a - 1real / b;
    lemma_rinv_diff(a, b);
    let m = a * b;
    assert(m > 0real) by (nonlinear_arith) requires a > 0real, b > 0real, m == a * b;
    assert(d * m == b - a) by (nonlinear_arith) requires d == (b - a) / m, m > 0real;
    let v = l * c * d;
    assert(v * m == c * ((b - a) * l)) by (nonlinear_arith) requires v == l * c * d, d * m == b - a;
    m
}
pub proof fn lemma_rcancel(x: real, y: real, m: real) requires m > 0real, x * m <= y * m ensures x <= y { assert(x <= y) by (nonlinear_arith) requires m > 0real, x * m <= y * m; }
/// the exact amounts liquidity l takes between prices a <= b
#[verifier::opaque]
pub open spec fn xval(l: int, a: int, b: int) -> real { (l as real) * KX() * (rinv(a) - rinv(b)) }
#[verifier::opaque]
pub open spec fn yval(l: int, d: int) -> real { (l as real) * KY() * (d as real) }
#[verifier::opaque]
pub open spec fn rm(a: real, b: real) -> real { a * b }
pub proof fn lemma_x_ge(x: int, ab: int, n: int, v: real)
    requires x * ab >= E18() * n - E24(), rm(v, ab as real) == rm(KX(), n as real), ab >= 100000000000000 * 1000000000000000000000000
    ensures (x as real) + EPS() >= v
{
    reveal(rm);
    let (m, rx, e) = (ab as real, x as real, EPS());
    lemma_rmul(x, ab); lemma_rmul(E18(), n); lemma_rmul(100000000000000, 1000000000000000000000000);
    assert(rx * m >= v * m - (E24() as real));
    assert(m >= 100000000000000real * (E24() as real));
    assert(e * m >= (E24() as real)) by (nonlinear_arith) requires e == 1real / 100000000000000real, m >= 100000000000000real * (E24() as real);
    assert((rx + e) * m == rx * m + e * m) by (nonlinear_arith);
    lemma_rcancel(v, rx + e, m);
}
pub proof fn lemma_x_le(x: int, ab: int, n: int, v: real)
    requires x * ab <= E18() * n, rm(v, ab as real) == rm(KX(), n as real), ab > 0
    ensures (x as real) <= v
{
    reveal(rm);
    let (m, rx) = (ab as real, x as real);
    lemma_rmul(x, ab); lemma_rmul(E18(), n);
    assert(rx * m <= v * m);
    lemma_rcancel(rx, v, m);
}
/// v a b = 10^18 (b - a) l
pub proof fn lemma_x_exact(a: int, b: int, l: int, ab: int, n: int)
    requires 0 < a <= b, l >= 0, ab == a * b, n == (b - a) * l
    ensures rm(xval(l, a, b), ab as real) == rm(KX(), n as real), ab > 0, n >= 0
{
    reveal(rm); reveal(xval);
    lemma_rmul(a, b); lemma_rmul(b - a, l);
    let m = lemma_xval(a as real, b as real, l as real, KX());
    assert((b - a) as real == (b as real) - (a as real));
    assert(a * b > 0) by (nonlinear_arith) requires 0 < a, 0 < b;
    assert((b - a) * l >= 0) by (nonlinear_arith) requires b >= a, l >= 0;
}
/// an x amount that covers (up to the inner floor) moving liquidity l between prices a <= b
pub proof fn lemma_x_covers(x: int, a: int, b: int, l: int)
    requires MINP() <= a <= b, l >= 0, x * (a * b) >= E24() * ((b - a) * l / E6())
    ensures (x as real) + EPS() >= xval(l, a, b)
{
    let n = (b - a) * l; let f = n / E6(); let ab = a * b;
    lemma_x_exact(a, b, l, ab, n);
    lemma_floor(n, E6());
    assert(E24() * f >= E18() * n - E24()) by (nonlinear_arith) requires n < f * E6() + E6(), E24() == E18() * E6(), E18() > 0;
    assert(ab >= 15258932000000000000 * 15258932000000000000) by (nonlinear_arith) requires ab == a * b, a >= 15258932000000000000, b >= 15258932000000000000;
    lemma_x_ge(x, ab, n, xval(l, a, b));
}
pub proof fn lemma_x_covered(x: int, a: int, b: int, l: int)
    requires 0 < a <= b, l >= 0, x * (a * b) <= E24() * ((b - a) * l / E6())
    ensures (x as real) <= xval(l, a, b)
{
    let n = (b - a) * l; let f = n / E6(); let ab = a * b;
    lemma_x_exact(a, b, l, ab, n);
    lemma_floor(n, E6());
    assert(E24() * f <= E18() * n) by (nonlinear_arith) requires f * E6() <= n, E24() == E18() * E6(), E18() > 0;
    lemma_x_le(x, ab, n, xval(l, a, b));
}
pub proof fn lemma_y_val(y: int, d: int, l: int)
    ensures y * E24() * E6() >= d * l ==> (y as real) >= yval(l, d), y * E24() * E6() <= d * l ==> (y as real) <= yval(l, d)
{
    reveal(yval);
    let e = E24() * E6();
    let v = (l as real) * KY() * (d as real);
    let re = e as real;
    lemma_rmul(d, l); lemma_rmul(y, e);
    assert(y * E24() * E6() == y * e) by (nonlinear_arith) requires e == E24() * E6();
    assert(e > 0) by (nonlinear_arith) requires e == E24() * E6(), E24() > 0, E6() > 0;
    assert(v * re == (d as real) * (l as real)) by (nonlinear_arith) requires v == (l as real) * (1real / re) * (d as real), re > 0real;
    if y * e >= d * l { lemma_rcancel(v, y as real, re); }
    if y * e <= d * l { lemma_rcancel(y as real, v, re); }
}
/// splitting an interval, empty intervals, signs
pub proof fn lemma_xval_facts(l: int, a: int, b: int, c: int)
    requires l >= 0, 0 < a, 0 < b, 0 < c
    ensures xval(l, a, b) + xval(l, b, c) == xval(l, a, c), xval(l, a, a) == 0real, a <= b ==> xval(l, a, b) >= 0real
{
    reveal(xval);
    let (x, y, z) = (rinv(a), rinv(b), rinv(c)); let t = (l as real) * KX();
    assert(t * (x - y) + t * (y - z) == t * (x - z)) by (nonlinear_arith);
    assert(t * (x - x) == 0real) by (nonlinear_arith);
    if a <= b {
        assert(t >= 0real) by (nonlinear_arith) requires t == (l as real) * KX(), (l as real) >= 0real, KX() >= 0real;
        let (ra, rb) = (a as real, b as real);
        assert(1real / ra >= 1real / rb) by (nonlinear_arith) requires 0real < ra, ra <= rb;
        assert(t * (x - y) >= 0real) by (nonlinear_arith) requires t >= 0real, x >= y;
    }
}
pub proof fn lemma_yval_facts(l: int, d: int, e: int)
    requires l >= 0
    ensures yval(l, d) + yval(l, e) == yval(l, d + e), yval(l, 0) == 0real, d >= 0 ==> yval(l, d) >= 0real, yval(l, -d) == -yval(l, d)
{
    reveal(yval);
    let t = (l as real) * KY(); let (x, y) = (d as real, e as real);
    assert((d + e) as real == x + y && (-d) as real == -x);
    assert(t * x + t * y == t * (x + y) && t * 0real == 0real && t * (-x) == -(t * x)) by (nonlinear_arith);
    if d >= 0 {
        let q = (E24() * E6()) as real;
        assert(E24() * E6() > 0) by (nonlinear_arith) requires E24() > 0, E6() > 0;
        assert(1real / q >= 0real) by (nonlinear_arith) requires q > 0real;
        assert(t >= 0real) by (nonlinear_arith) requires t == (l as real) * KY(), (l as real) >= 0real, KY() >= 0real;
        assert(t * x >= 0real) by (nonlinear_arith) requires t >= 0real, x >= 0real;
    }
}
/// the value of a unit of liquidity when the price moves from p to q
pub open spec fn unit_x(p: int, q: int) -> real { KX() * (rinv(q) - rinv(p)) }
pub open spec fn unit_y(p: int, q: int) -> real { KY() * ((q - p) as real) }
pub proof fn lemma_units(l: int, p: int, q: int)
    ensures xval(l, q, p) == (l as real) * unit_x(p, q), yval(l, q - p) == (l as real) * unit_y(p, q)
{
    reveal(xval); reveal(yval);
    let (a, b, c, d) = (l as real, KX(), rinv(q) - rinv(p), KY()); let e = (q - p) as real;
    assert(a * b * c == a * (b * c) && a * d * e == a * (d * e)) by (nonlinear_arith);
}
pub open spec fn clampi(p: int, a: int, b: int) -> int { if p <= a { a } else if p >= b { b } else { p } }
pub open spec fn plo(q: Position) -> int { tick_price(q.lower_tick_index as int) }
pub open spec fn pup(q: Position) -> int { tick_price(q.upper_tick_index as int) }
/// the exact amounts behind a position at a price
pub open spec fn vx(q: Position, price: int) -> real { xval(q.liquidity.0 as int, clampi(price, plo(q), pup(q)), pup(q)) }
pub open spec fn vy(q: Position, price: int) -> real { yval(q.liquidity.0 as int, clampi(price, plo(q), pup(q)) - plo(q)) }
pub open spec fn pval(q: Position, price: int, x: bool) -> real { if x { vx(q, price) } else { vy(q, price) } }
pub open spec fn vw(k: PoolKey, price: int, x: bool) -> spec_fn(Position) -> real { |q: Position| if q.pool_key == k { pval(q, price, x) } else { 0real } }
/// growth of g on liquidity l, exactly
#[verifier::opaque]
pub open spec fn share(l: int, g: int) -> real { (l as real) * ((g as real) / (E34() as real)) }
/// and its fees: what is recorded as owed plus its exact share of the growth since its snapshot
pub open spec fn snap(q: Position, x: bool) -> int { if x { q.fee_growth_inside_x.0 as int } else { q.fee_growth_inside_y.0 as int } }
pub open spec fn recorded(q: Position, x: bool) -> int { if x { q.tokens_owed_x.0 as int } else { q.tokens_owed_y.0 as int } }
pub open spec fn pfee(q: Position, now: int, x: bool) -> real { (recorded(q, x) as real) + share(q.liquidity.0 as int, wsub(now, snap(q, x))) }
pub open spec fn fw(k: PoolKey, fin: spec_fn(i32, i32) -> int, x: bool) -> spec_fn(Position) -> real { |q: Position| if q.pool_key == k { pfee(q, fin(q.lower_tick_index, q.upper_tick_index), x) } else { 0real } }
pub open spec fn proto(p: Pool, x: bool) -> int { if x { p.fee_protocol_token_x.0 as int } else { p.fee_protocol_token_y.0 as int } }
pub open spec fn owe(m: Map<Seq<u8>, Position>, k: PoolKey, p: Pool, fin: spec_fn(i32, i32) -> int, x: bool) -> real { rsum(m, vw(k, p.sqrt_price.0 as int, x)) + rsum(m, fw(k, fin, x)) + (proto(p, x) as real) }
pub open spec fn fin_s(s: SV, k: PoolKey, x: bool) -> spec_fn(i32, i32) -> int { |lo: i32, up: i32| inside(s, k, lo, up, x) }
/// everything a pool owes in one token: the amounts behind all positions, their fees, the protocol's fees
pub open spec fn owed(s: SV, k: PoolKey, x: bool) -> real { owe(s.positions, k, s.pools[pkey(k)], fin_s(s, k, x), x) }
// ---- a swap step ----
/// a tick of a position lies on the same side of the price before and after a step
pub proof fn lemma_span(a: SwArg, r: SwRec, i: int)
    requires sw_step(a, r), pool_ok(r.pre.pool, sw_sp(a)), ticks_idx(a.s, a.k), sw_pre(a, r.pre.pool), valid_tick(i, sw_sp(a)), bit_set(a.s, a.k, i, sw_sp(a))
    ensures i <= r.pre.pool.current_tick_index ==> tick_price(i) <= r.pre.pool.sqrt_price.0 && tick_price(i) <= r.post.pool.sqrt_price.0,
        i > r.pre.pool.current_tick_index ==> r.pre.pool.sqrt_price.0 <= tick_price(i) && r.post.pool.sqrt_price.0 <= tick_price(i)
{
    let (p, q, sp) = (r.pre.pool, r.post.pool, sw_sp(a));
    let c = p.current_tick_index as int;
    lemma_sw_step(a, r);
    lemma_sw_lim(a, p, r.lim.0 as int, r.lt);
    lemma_max_tick(sp);
    lemma_mt_le(i, sp);
    reveal(closer_ok);
    let (j, init) = match r.lt { Some(x) => x, None => choose|i: i32, init: bool| #[trigger] search_ok(a.s, a.k, c, sp, a.xy, i, init) && !before_limit(i as int, a.xy, a.limit.0 as int) };
    assert(search_ok(a.s, a.k, c, sp, a.xy, j, init));
    lemma_search(a.s, a.k, c, sp, a.xy, j, init);
    let next = r.res.next_sqrt_price.0 as int;
    assert(if a.xy { r.lim.0 <= next } else { next <= r.lim.0 });
    if i <= c {
        lemma_tp_le(i, c);
        if a.xy { assert(no_marks(a.s, a.k, j as int, c)); assert(i <= j); lemma_tp_le(i, j as int); }
    } else {
        if i < c + sp { lemma_sub_mod(c, sp); lemma_aligned(i, c + sp, sp); }
        lemma_tp_le(c + sp, i);
        if !a.xy { assert(no_marks(a.s, a.k, c, j - 1)); assert(i >= j); lemma_tp_le(j as int, i); }
    }
}
/// how the value behind one position moves
pub proof fn lemma_pos_moves(q: Position, c: int, p: int, n: int, x: bool)
    requires q.lower_tick_index < q.upper_tick_index, -MAXT() <= q.lower_tick_index, q.upper_tick_index <= MAXT(), p > 0, n > 0,
        q.lower_tick_index <= c ==> plo(q) <= p && plo(q) <= n, q.lower_tick_index > c ==> p <= plo(q) && n <= plo(q),
        q.upper_tick_index <= c ==> pup(q) <= p && pup(q) <= n, q.upper_tick_index > c ==> p <= pup(q) && n <= pup(q),
    ensures pval(q, n, x) == pval(q, p, x) + (if q.lower_tick_index <= c < q.upper_tick_index { (q.liquidity.0 as real) * (if x { unit_x(p, n) } else { unit_y(p, n) }) } else { 0real })
{
    let l = q.liquidity.0 as int; let (a, b) = (plo(q), pup(q));
    lemma_tick_price(q.lower_tick_index as int, q.upper_tick_index as int);
    lemma_price_range(q.lower_tick_index as int); lemma_price_range(q.upper_tick_index as int);
    if q.lower_tick_index <= c < q.upper_tick_index {
        assert(clampi(p, a, b) == p && clampi(n, a, b) == n);
        lemma_units(l, p, n);
        lemma_xval_facts(l, n, p, b); lemma_yval_facts(l, p - a, n - p);
        assert((p - a) + (n - p) == n - a);
    } else {
        assert(clampi(p, a, b) == clampi(n, a, b));
    }
}
pub open spec fn fin_w(a: SwArg, st: SwSt, x: bool) -> spec_fn(i32, i32) -> int { |lo: i32, up: i32| ins(st.pool, tick_now(a, st, lo), tick_now(a, st, up), x) }
pub open spec fn owe_at(a: SwArg, st: SwSt, x: bool) -> real { owe(a.s.positions, a.k, st.pool, fin_w(a, st, x), x) }
pub open spec fn unit(p: int, n: int, x: bool) -> real { if x { unit_x(p, n) } else { unit_y(p, n) } }
/// the positions' total value moves by the active liquidity times the price move
pub proof fn lemma_step_values(a: SwArg, r: SwRec, x: bool)
    requires inv(a.s), pk_ok(a.k), sw_step(a, r), pool_ok(r.pre.pool, sw_sp(a)), sw_pre(a, r.pre.pool), sw_lq(a, r.pre.pool)
    ensures ({ let (p, n) = (r.pre.pool.sqrt_price.0 as int, r.post.pool.sqrt_price.0 as int);
        rsum(a.s.positions, vw(a.k, n, x)) == rsum(a.s.positions, vw(a.k, p, x)) + (r.pre.pool.liquidity.0 as real) * unit(p, n, x) })
{
    lemma_inv_idx(a.s, a.k);
    lemma_sw_step(a, r);
    let (p, n) = (r.pre.pool.sqrt_price.0 as int, r.post.pool.sqrt_price.0 as int); let c = r.pre.pool.current_tick_index as int;
    let (m, f, g, h) = (a.s.positions, vw(a.k, p, x), scaled(aw(a.k, c), unit(p, n, x)), vw(a.k, n, x));
    assert forall|key: Seq<u8>| #[trigger] m.contains_key(key) implies h(m[key]) == f(m[key]) + g(m[key]) by {
        let q = m[key];
        let d = unit(p, n, x);
        assert(0real * d == 0real) by (nonlinear_arith);
        if q.pool_key == a.k {
            lemma_ends(a.s, key);
            assert(pos_wf(a.s, q));
            lemma_max_tick(sw_sp(a));
            lemma_span(a, r, q.lower_tick_index as int); lemma_span(a, r, q.upper_tick_index as int);
            lemma_pos_moves(q, c, p, n, x);
        }
    }
    lemma_rsum_add(m, f, g, h);
    lemma_rsum_scale(m, aw(a.k, c), unit(p, n, x));
}
pub proof fn lemma_share(l: int, g: int, h: int)
    requires l >= 0
    ensures share(l, g) + share(l, h) == share(l, g + h), g <= h ==> share(l, g) <= share(l, h), share(l, 0) == 0real, g >= 0 ==> share(l, g) >= 0real, share(0, g) == 0real
{
    reveal(share);
    let (a, b, c, e) = (l as real, g as real, h as real, E34() as real);
    assert((g + h) as real == b + c);
    assert(a * (b / e) + a * (c / e) == a * ((b + c) / e)) by (nonlinear_arith) requires e > 0real;
    assert(0real / e == 0real) by (nonlinear_arith) requires e > 0real;
    assert(a * 0real == 0real && 0real * (b / e) == 0real) by (nonlinear_arith);
    if g <= h { assert(b / e <= c / e) by (nonlinear_arith) requires b <= c, e > 0real; assert(a * (b / e) <= a * (c / e)) by (nonlinear_arith) requires a >= 0real, b / e <= c / e; }
    if g >= 0 { assert(b / e >= 0real) by (nonlinear_arith) requires b >= 0real, e > 0real; assert(a * (b / e) >= 0real) by (nonlinear_arith) requires a >= 0real, b / e >= 0real; }
}
/// what an integer number of base units covers
pub proof fn lemma_share_le(l: int, g: int, fee: int)
    ensures g * l <= fee * E34() ==> share(l, g) <= fee as real, g * l >= fee * E34() ==> share(l, g) >= fee as real
{
    reveal(share);
    let (a, b, c, e) = (l as real, g as real, fee as real, E34() as real);
    lemma_rmul(g, l); lemma_rmul(fee, E34());
    let v = a * (b / e);
    assert(v * e == b * a) by (nonlinear_arith) requires v == a * (b / e), e > 0real;
    if g * l <= fee * E34() { lemma_rcancel(v, c, e); }
    if g * l >= fee * E34() { lemma_rcancel(c, v, e); }
}
pub open spec fn gmove(p: Pool, q: Pool, x: bool) -> int { wsub(glob(q, x), glob(p, x)) }
/// a collected fee covers what it credits to the active liquidity and to the protocol
pub proof fn lemma_add_fee_covers(p: Pool, q: Pool, amount: int, in_x: bool, rate: int, x: bool)
    requires pool_add_fee(p, q, amount, in_x, rate), rate >= 0, amount >= 0
    ensures share(p.liquidity.0 as int, gmove(p, q, x)) + (proto(q, x) as real) - (proto(p, x) as real) <= (if x == in_x { amount as real } else { 0real }), q.liquidity == p.liquidity, gmove(p, q, x) >= 0
{
    let l = p.liquidity.0 as int; let pf = protocol_share(amount, rate); let rest = amount - pf;
    lemma_share(l, 0, 0);
    assert(amount * rate >= 0) by (nonlinear_arith) requires amount >= 0, rate >= 0;
    lemma_cdiv(amount * rate, E12());
    if (rest == 0 && pf == 0) || l == 0 { assert(gmove(p, q, x) == 0); }
    else {
        let g = growth_of(rest, l);
        assert(rest * E34() >= 0) by (nonlinear_arith) requires rest >= 0, E34() >= 0;
        lemma_floor(rest * E34(), l);
        lemma_share_le(l, g, rest);
        let d = gmove(p, q, x);
        if x == in_x {
            assert(d <= g);
            lemma_share(l, d, g);
            assert(proto(q, x) == proto(p, x) + pf);
        } else { assert(d == 0); }
    }
}
pub proof fn lemma_step_fee_covers(a: SwArg, r: SwRec, x: bool)
    requires sw_step(a, r), r.res.fee_amount.0 >= 0
    ensures share(r.pre.pool.liquidity.0 as int, gmove(r.pre.pool, r.post.pool, x)) + (proto(r.post.pool, x) as real) - (proto(r.pre.pool, x) as real) <= (if x == a.xy { (r.res.fee_amount.0 + r.added) as real } else { 0real })
{
    let (p, m, q) = (r.pre.pool, r.mid, r.post.pool); let l = p.liquidity.0 as int;
    let fee = r.res.fee_amount.0 as int;
    let rem1 = r.pre.rem - (if a.by_in { r.res.amount_in.0 + fee } else { r.res.amount_out.0 as int });
    lemma_add_fee_covers(p, m, fee, a.xy, sw_rate(a), x);
    let m2 = Pool { sqrt_price: r.res.next_sqrt_price, ..m };
    lemma_share(l, 0, 0);
    if !(r.tu0 is NoTick || r.lim.0 != r.res.next_sqrt_price.0) && r.tu0 is TickInitialized && !r.crossed && a.by_in && rem1 != 0 {
        let n = choose|n: Pool| pool_add_fee(m2, n, rem1, a.xy, sw_rate(a)) && q == (Pool { current_tick_index: q.current_tick_index, ..n });
        lemma_add_fee_covers(m2, n, rem1, a.xy, sw_rate(a), x);
        let (g, h, t) = (gmove(p, m, x), gmove(m2, n, x), gmove(p, q, x));
        assert(t <= g + h);
        lemma_share(l, g, h); lemma_share(l, t, g + h);
        assert(r.added == rem1);
    } else {
        assert(glob(q, x) == glob(m, x) && proto(q, x) == proto(m, x));
    }
}
/// the direction's bookkeeping of crossed ticks
pub proof fn lemma_step_behind(a: SwArg, r: SwRec)
    requires inv(a.s), pk_ok(a.k), sw_step(a, r), pool_ok(r.pre.pool, sw_sp(a)), sw_pre(a, r.pre.pool), behind(a, r.pre)
    ensures behind(a, r.post)
{
    lemma_inv_idx(a.s, a.k);
    lemma_step_marks(a, r);
    lemma_sw_step(a, r);
    if r.crossed {
        let i = r.lt->Some_0.0; let d = r.post.pool.current_tick_index as int;
        assert(a.s.ticks[tkey(a.k, i)].index == i && r.tu1->TickInitialized_0.index == i);
        assert forall|n: int| 0 <= n < r.post.ticks.len() implies (if a.xy { (#[trigger] r.post.ticks[n]).index > d } else { r.post.ticks[n].index <= d }) by { if n < r.pre.ticks.len() { assert(r.post.ticks[n] == r.pre.ticks[n]); } }
    } else {
        assert(r.post.ticks == r.pre.ticks);
    }
}
pub proof fn lemma_step_fees(a: SwArg, r: SwRec, x: bool)
    requires inv(a.s), pk_ok(a.k), sw_step(a, r), pool_ok(r.pre.pool, sw_sp(a)), sw_pre(a, r.pre.pool), sw_lq(a, r.pre.pool), written_like(a, r.pre.ticks), behind(a, r.pre)
    ensures rsum(a.s.positions, fw(a.k, fin_w(a, r.post, x), x)) <= rsum(a.s.positions, fw(a.k, fin_w(a, r.pre, x), x)) + share(r.pre.pool.liquidity.0 as int, gmove(r.pre.pool, r.post.pool, x))
{
    let c = r.pre.pool.current_tick_index as int; let dg = gmove(r.pre.pool, r.post.pool, x); let d = (dg as real) / (E34() as real);
    let (m, f, g, h) = (a.s.positions, fw(a.k, fin_w(a, r.pre, x), x), scaled(aw(a.k, c), d), fw(a.k, fin_w(a, r.post, x), x));
    assert forall|key: Seq<u8>| #[trigger] m.contains_key(key) implies h(m[key]) <= f(m[key]) + g(m[key]) by {
        let q = m[key];
        assert(0real * d == 0real) by (nonlinear_arith);
        if q.pool_key == a.k {
            let (lo, up) = (q.lower_tick_index, q.upper_tick_index);
            lemma_ends(a.s, key);
            assert(pos_wf(a.s, q));
            assert(range_of(a.s, a.k, lo, up)) by { lemma_position_range(a.s, key); }
            lemma_step_grown(a, r, lo, up, x);
            let (i, j, l, sn) = (fin_w(a, r.pre, x)(lo, up), fin_w(a, r.post, x)(lo, up), q.liquidity.0 as int, snap(q, x));
            lemma_ins_w(r.pre.pool, tick_now(a, r.pre, lo), tick_now(a, r.pre, up), x);
            let st = step_grown(r, lo as int, up as int, x);
            assert(wsub(j, sn) <= wsub(i, sn) + st);
            lemma_share(l, wsub(i, sn), st); lemma_share(l, wsub(j, sn), wsub(i, sn) + st); lemma_share(l, 0, 0);
            assert(share(l, dg) == (l as real) * d) by { reveal(share); }
        }
    }
    lemma_rsum_le(m, f, g, h);
    lemma_rsum_scale(m, aw(a.k, c), d);
    assert(share(r.pre.pool.liquidity.0 as int, dg) == (r.pre.pool.liquidity.0 as real) * d) by { reveal(share); }
}
/// what one step brings in (with the rounding a computed x amount can lose) or pays out
pub open spec fn step_flow(a: SwArg, p: SwSt, q: SwSt, x: bool) -> real { if x == a.xy { (q.tin - p.tin) as real } else { -((q.tout - p.tout) as real) } }
pub proof fn lemma_neg_out(aout: int, n: int) requires aout * E24() * E6() <= n, n == 0, aout >= 0 ensures aout == 0
{ assert(aout == 0) by (nonlinear_arith) requires aout * E24() * E6() <= 0, aout >= 0, E24() == 1000000000000000000000000, E6() == 1000000; }
pub proof fn lemma_step_covers(a: SwArg, r: SwRec, x: bool)
    requires sw_step(a, r), pool_ok(r.pre.pool, sw_sp(a)), ticks_idx(a.s, a.k), sw_pre(a, r.pre.pool)
    ensures (r.pre.pool.liquidity.0 as real) * unit(r.pre.pool.sqrt_price.0 as int, r.post.pool.sqrt_price.0 as int, x) <= (if x == a.xy { (r.res.amount_in.0 as real) + EPS() } else { -(r.res.amount_out.0 as real) })
{
    lemma_sw_step(a, r);
    lemma_sw_lim(a, r.pre.pool, r.lim.0 as int, r.lt);
    let (p, n, l, lim) = (r.pre.pool.sqrt_price.0 as int, r.post.pool.sqrt_price.0 as int, r.pre.pool.liquidity.0 as int, r.lim.0 as int);
    let (ain, aout) = (r.res.amount_in.0 as int, r.res.amount_out.0 as int);
    assert(step_ok(p, lim, l, r.pre.rem, a.by_in, a.k.fee_tier.fee.0 as int, n, ain, aout, r.res.fee_amount.0 as int));
    assert(MINP() <= n);
    lemma_units(l, p, n);
    lemma_xval_facts(l, n, p, n); lemma_yval_facts(l, n - p, 0);
    if a.xy {
        assert(ain * (n * p) == ain * n * p) by (nonlinear_arith);
        if x { lemma_x_covers(ain, n, p, l); } else { lemma_y_val(aout, p - n, l); assert(-(n - p) == p - n); }
    } else if p < lim {
        assert(aout * (p * n) == aout * n * p) by (nonlinear_arith);
        if x { lemma_x_covered(aout, p, n, l); } else { lemma_y_val(ain, n - p, l); }
    } else {
        assert(n == p);
        assert((p - n) * l == 0) by (nonlinear_arith) requires p == n;
        lemma_neg_out(aout, (p - n) * l);
    }
}
/// A21 for one step
pub proof fn lemma_step_owe(a: SwArg, r: SwRec, x: bool)
    requires inv(a.s), pk_ok(a.k), sw_step(a, r), pool_ok(r.pre.pool, sw_sp(a)), sw_pre(a, r.pre.pool), sw_lq(a, r.pre.pool), written_like(a, r.pre.ticks), behind(a, r.pre)
    ensures owe_at(a, r.post, x) <= owe_at(a, r.pre, x) + step_flow(a, r.pre, r.post, x) + EPS()
{
    lemma_inv_idx(a.s, a.k);
    lemma_sw_step(a, r);
    lemma_step_values(a, r, x);
    lemma_step_fees(a, r, x);
    lemma_step_covers(a, r, x);
    assert(r.res.fee_amount.0 >= 0);
    lemma_step_fee_covers(a, r, x);
}
pub open spec fn eps_n(n: int) -> real { (n as real) * EPS() }
pub proof fn lemma_eps(n: int, m: int) ensures eps_n(n) + eps_n(m) == eps_n(n + m), eps_n(0) == 0real, eps_n(1) == EPS(), n >= 0 ==> eps_n(n) >= 0real
{
    let (a, b, e) = (n as real, m as real, EPS());
    assert((n + m) as real == a + b);
    assert(a * e + b * e == (a + b) * e && 0real * e == 0real && 1real * e == e) by (nonlinear_arith);
    if n >= 0 { assert(a * e >= 0real) by (nonlinear_arith) requires a >= 0real, e >= 0real; }
}
pub proof fn lemma_run_owe(a: SwArg, tr: Seq<SwRec>, st0: SwSt, st: SwSt, x: bool)
    requires inv(a.s), pk_ok(a.k), sw_run(a, tr, st0, st), pool_ok(st0.pool, sw_sp(a)), sw_pre(a, st0.pool), sw_lq(a, st0.pool), st0.ticks.len() == 0
    ensures owe_at(a, st, x) <= owe_at(a, st0, x) + step_flow(a, st0, st, x) + eps_n(tr.len() as int), behind(a, st)
    decreases tr.len()
{
    lemma_eps(tr.len() - 1, 1);
    if tr.len() > 0 {
        let r = tr.last(); let d = tr.drop_last();
        lemma_run_owe(a, d, st0, r.pre, x);
        lemma_run_liq(a, d, st0, r.pre);
        lemma_step_owe(a, r, x);
        lemma_step_behind(a, r);
    } else { lemma_eps(0, 0); }
}
// ---- what is charged and paid for liquidity ----
/// the pool's price lies on the side of an aligned tick its current tick says
pub proof fn lemma_side(p: Pool, sp: int, i: int)
    requires pool_ok(p, sp), valid_tick(i, sp)
    ensures i <= p.current_tick_index ==> tick_price(i) <= p.sqrt_price.0, i > p.current_tick_index ==> p.sqrt_price.0 <= tick_price(i), MINP() <= tick_price(i) <= MAXP()
{
    let c = p.current_tick_index as int;
    lemma_max_tick(sp); lemma_mt_le(i, sp); lemma_price_range(i);
    if i <= c { lemma_tp_le(i, c); }
    else {
        if i < c + sp { lemma_sub_mod(c, sp); lemma_aligned(i, c + sp, sp); }
        lemma_tp_le(c + sp, i);
    }
}
pub open spec fn amount_of(p: Pool, l: int, round_up: bool, upper: int, lower: int, x: bool) -> int {
    if x { amount_x_spec(p.current_tick_index as int, p.sqrt_price.0 as int, l, round_up, upper, lower) } else { amount_y_spec(p.current_tick_index as int, p.sqrt_price.0 as int, l, round_up, upper, lower) }
}
pub proof fn lemma_dx_charge(a: int, b: int, l: int)
    requires MINP() <= a <= b, l >= 0
    ensures (dx_up(a, b, l) as real) + EPS() >= xval(l, a, b), (dx_dn(a, b, l) as real) <= xval(l, a, b)
{
    assert(a * b >= E24()) by (nonlinear_arith) requires a >= 15258932000000000000, b >= 15258932000000000000, E24() == 1000000000000000000000000;
    lemma_floor(a * b, E24());
    assert(a * b / E24() > 0) by { if a * b / E24() <= 0 { assert((a * b / E24() + 1) * E24() <= E24()) by (nonlinear_arith) requires a * b / E24() <= 0, E24() > 0; } }
    lemma_dx_up_cost(a, b, l); lemma_dx_dn_cost(a, b, l);
    assert(vabs(a - b) == b - a);
    lemma_x_covers(dx_up(a, b, l), a, b, l);
    lemma_x_covered(dx_dn(a, b, l), a, b, l);
}
pub proof fn lemma_dy_charge(a: int, b: int, l: int)
    requires a <= b, l >= 0
    ensures (dy_up(a, b, l) as real) >= yval(l, b - a), (dy_dn(a, b, l) as real) <= yval(l, b - a)
{
    lemma_dy_up_cost(a, b, l); lemma_dy_dn_cost(a, b, l);
    assert(vabs(a - b) == b - a);
    lemma_y_val(dy_up(a, b, l), b - a, l); lemma_y_val(dy_dn(a, b, l), b - a, l);
}
/// opening charges at least, closing pays at most the exact value
pub proof fn lemma_amount_covers(p: Pool, q: Position, x: bool)
    requires pool_ok(p, q.pool_key.fee_tier.tick_spacing as int), q.lower_tick_index < q.upper_tick_index, valid_tick(q.lower_tick_index as int, q.pool_key.fee_tier.tick_spacing as int), valid_tick(q.upper_tick_index as int, q.pool_key.fee_tier.tick_spacing as int)
    ensures (amount_of(p, q.liquidity.0 as int, true, q.upper_tick_index as int, q.lower_tick_index as int, x) as real) + EPS() >= pval(q, p.sqrt_price.0 as int, x),
        (amount_of(p, q.liquidity.0 as int, false, q.upper_tick_index as int, q.lower_tick_index as int, x) as real) <= pval(q, p.sqrt_price.0 as int, x)
{
    let sp = q.pool_key.fee_tier.tick_spacing as int; let l = q.liquidity.0 as int; let (lo, up) = (q.lower_tick_index as int, q.upper_tick_index as int);
    let (a, b, c, price) = (plo(q), pup(q), p.current_tick_index as int, p.sqrt_price.0 as int);
    lemma_side(p, sp, lo); lemma_side(p, sp, up);
    lemma_max_tick(sp);
    lemma_tick_price(lo, up);
    lemma_xval_facts(l, b, b, b); lemma_yval_facts(l, 0, 0);
    if c < lo {
        assert(clampi(price, a, b) == a);
        lemma_dx_charge(a, b, l);
    } else if c < up {
        assert(clampi(price, a, b) == price);
        lemma_dx_charge(price, b, l); lemma_dy_charge(a, price, l);
    } else {
        assert(clampi(price, a, b) == b);
        lemma_dy_charge(a, b, l);
    }
}
// ---- frames ----
/// what the positions in m are owed by pool k in state s
pub open spec fn liab(m: Map<Seq<u8>, Position>, s: SV, k: PoolKey, x: bool) -> real { owe(m, k, s.pools[pkey(k)], fin_s(s, k, x), x) }
pub open spec fn ranged(m: Map<Seq<u8>, Position>, s: SV, k: PoolKey) -> bool { forall|key: Seq<u8>| #[trigger] m.contains_key(key) && m[key].pool_key == k ==> range_of(s, k, m[key].lower_tick_index, m[key].upper_tick_index) }
pub proof fn lemma_ranged(s: SV, k: PoolKey) requires inv(s) ensures ranged(s.positions, s, k)
{ assert forall|key: Seq<u8>| #[trigger] s.positions.contains_key(key) && s.positions[key].pool_key == k implies range_of(s, k, s.positions[key].lower_tick_index, s.positions[key].upper_tick_index) by { lemma_position_range(s, key); } }
pub open spec fn funds_kept(p: Pool, q: Pool) -> bool { p.sqrt_price == q.sqrt_price && p.fee_protocol_token_x == q.fee_protocol_token_x && p.fee_protocol_token_y == q.fee_protocol_token_y }
pub proof fn lemma_liab_kept(m: Map<Seq<u8>, Position>, s: SV, t: SV, k: PoolKey, x: bool)
    requires fees_kept(s, t), ranged(m, s, k), ranged(m, t, k), s.pools[pkey(k)].sqrt_price == t.pools[pkey(k)].sqrt_price
    ensures liab(m, t, k, x) - (proto(t.pools[pkey(k)], x) as real) == liab(m, s, k, x) - (proto(s.pools[pkey(k)], x) as real)
{
    let (f, g) = (fw(k, fin_s(s, k, x), x), fw(k, fin_s(t, k, x), x));
    assert forall|key: Seq<u8>| #[trigger] m.contains_key(key) implies f(m[key]) == g(m[key]) by {
        let q = m[key];
        if q.pool_key == k {
            let (lo, up) = (q.lower_tick_index, q.upper_tick_index);
            assert(range_of(s, k, lo, up) && range_of(t, k, lo, up));
            lemma_kept_grown(s, t, k, lo, up);
            lemma_ins_w(s.pools[pkey(k)], s.ticks[tkey(k, lo)], s.ticks[tkey(k, up)], x);
            lemma_wadd_assoc(inside(s, k, lo, up, x), 0, 0);
        }
    }
    lemma_rsum_eq(m, f, g);
}
/// a position's total claim
pub open spec fn claim(q: Position, s: SV, k: PoolKey, x: bool) -> real { vw(k, s.pools[pkey(k)].sqrt_price.0 as int, x)(q) + fw(k, fin_s(s, k, x), x)(q) }
pub proof fn lemma_liab_added(s: SV, t: SV, a: Seq<u8>, p: Position, v: SV, k: PoolKey, x: bool)
    requires inv_list(s), pos_added(s, t, a, p)
    ensures liab(t.positions, v, k, x) == liab(s.positions, v, k, x) + claim(p, v, k, x)
{
    let n = plen_of(s, a);
    assert(!s.positions.contains_key(poskey(a, n)));
    lemma_rsum_insert(s.positions, vw(k, v.pools[pkey(k)].sqrt_price.0 as int, x), poskey(a, n), p);
    lemma_rsum_insert(s.positions, fw(k, fin_s(v, k, x), x), poskey(a, n), p);
}
pub proof fn lemma_rremoved(s: SV, t: SV, a: Seq<u8>, i: int, p: Position, f: spec_fn(Position) -> real)
    requires inv_list(s), pos_removed(s, t, a, i, p), 0 <= i < 0x100000000
    ensures rsum(t.positions, f) == rsum(s.positions, f) - f(p)
{
    let n = plen_of(s, a) - 1;
    assert(s.positions.contains_key(poskey(a, i)) <==> i < plen_of(s, a));
    assert(i <= n);
    let m = s.positions.remove(poskey(a, n));
    if i < n { if poskey(a, i) == poskey(a, n) { lemma_poskey_inj(a, i, a, n); } }
    lemma_rsum_remove(s.positions, f, poskey(a, n));
    if i < n { lemma_rsum_insert(m, f, poskey(a, i), s.positions[poskey(a, n)]); assert(m.contains_key(poskey(a, i))); }
}
pub proof fn lemma_liab_removed(s: SV, t: SV, a: Seq<u8>, i: int, p: Position, v: SV, k: PoolKey, x: bool)
    requires inv_list(s), pos_removed(s, t, a, i, p), 0 <= i < 0x100000000
    ensures liab(t.positions, v, k, x) == liab(s.positions, v, k, x) - claim(p, v, k, x)
{
    lemma_rremoved(s, t, a, i, p, vw(k, v.pools[pkey(k)].sqrt_price.0 as int, x));
    lemma_rremoved(s, t, a, i, p, fw(k, fin_s(v, k, x), x));
}
pub proof fn lemma_liab_rewritten(m: Map<Seq<u8>, Position>, id: Seq<u8>, p: Position, v: SV, k: PoolKey, x: bool)
    requires m.contains_key(id)
    ensures liab(m.insert(id, p), v, k, x) == liab(m, v, k, x) + claim(p, v, k, x) - claim(m[id], v, k, x)
{
    lemma_rsum_insert(m, vw(k, v.pools[pkey(k)].sqrt_price.0 as int, x), id, p);
    lemma_rsum_insert(m, fw(k, fin_s(v, k, x), x), id, p);
}
/// nothing a pool owes is negative
pub proof fn lemma_owed_pos(s: SV, k: PoolKey, x: bool)
    requires inv(s)
    ensures owed(s, k, x) >= 0real
{
    let price = s.pools[pkey(k)].sqrt_price.0 as int; let m = s.positions;
    assert forall|key: Seq<u8>| #[trigger] m.contains_key(key) implies vw(k, price, x)(m[key]) >= 0real && fw(k, fin_s(s, k, x), x)(m[key]) >= 0real by {
        let q = m[key];
        if q.pool_key == k {
            assert(pos_wf(s, q));
            let sp = k.fee_tier.tick_spacing as int; let (a, b) = (plo(q), pup(q)); let l = q.liquidity.0 as int;
            lemma_max_tick(sp); lemma_tick_price(q.lower_tick_index as int, q.upper_tick_index as int);
            lemma_price_range(q.lower_tick_index as int); lemma_price_range(q.upper_tick_index as int);
            lemma_xval_facts(l, clampi(price, a, b), b, b); lemma_yval_facts(l, clampi(price, a, b) - a, 0);
            let now = fin_s(s, k, x)(q.lower_tick_index, q.upper_tick_index);
            lemma_ins_w(s.pools[pkey(k)], s.ticks[tkey(k, q.lower_tick_index)], s.ticks[tkey(k, q.upper_tick_index)], x);
            lemma_share(l, wsub(now, snap(q, x)), 0);
        }
    }
    lemma_rsum_pos(m, vw(k, price, x)); lemma_rsum_pos(m, fw(k, fin_s(s, k, x), x));
}
// ---- A21: every message ----
pub open spec fn has(s: SV, k: PoolKey) -> bool { s.pools.contains_key(pkey(k)) }
pub open spec fn owed0(s: SV, k: PoolKey, x: bool) -> real { if has(s, k) { owed(s, k, x) } else { 0real } }
/// the change in what pool k owes is covered by the flow f (base units in, less base units out)
pub open spec fn covered(s: SV, t: SV, k: PoolKey, x: bool, f: int, n: int) -> bool { owed0(t, k, x) <= owed0(s, k, x) + (f as real) + eps_n(n) }
pub open spec fn swap_flow(q: PoolKey, xy: bool, r: CalculateSwapResult, k: PoolKey, x: bool) -> int { if q != k { 0 } else if x == xy { r.amount_in.0 as int } else { -(r.amount_out.0 as int) } }
pub proof fn lemma_swap_covered(a: SwArg, amount: int, tr: Seq<SwRec>, r: CalculateSwapResult, k: PoolKey, x: bool)
    requires inv(a.s), sw_done(a, amount, tr, r), pk_ok(k)
    ensures covered(a.s, sw_store(a.s, a.k, r), k, x, swap_flow(a.k, a.xy, r, k, x), tr.len() as int)
{
    let (st0, st) = (sw_start(a, amount), sw_end(r)); let t = sw_store(a.s, a.k, r); let m = a.s.positions;
    assert(pool_inv(a.s, a.k));
    lemma_eps(tr.len() as int, 0);
    if k == a.k {
        lemma_run_owe(a, tr, st0, st, x);
        let (f0, f1) = (fw(k, fin_w(a, st0, x), x), fw(k, fin_s(a.s, k, x), x));
        assert(ticks_written(a.s.ticks, a.k, st0.ticks) == a.s.ticks);
        lemma_rsum_eq(m, f0, f1);
        let (g0, g1) = (fw(k, fin_w(a, st, x), x), fw(k, fin_s(t, k, x), x));
        lemma_rsum_eq(m, g0, g1);
    } else if has(a.s, k) {
        if pkey(k) == pkey(a.k) { lemma_pkey_inj(k, a.k); }
        let (f, g) = (fw(k, fin_s(a.s, k, x), x), fw(k, fin_s(t, k, x), x));
        assert forall|key: Seq<u8>| #[trigger] m.contains_key(key) implies f(m[key]) == g(m[key]) by {
            lemma_elsewhere(a.s.ticks, a.k, r.ticks@, k, m[key].lower_tick_index); lemma_elsewhere(a.s.ticks, a.k, r.ticks@, k, m[key].upper_tick_index);
        }
        lemma_rsum_eq(m, f, g);
    } else {
        if pkey(k) == pkey(a.k) { lemma_pkey_inj(k, a.k); }
    }
}
pub open spec fn route_flow(hs: Seq<SwapHop>, tr: Seq<RtRec>, k: PoolKey, x: bool) -> int
    decreases hs.len()
{ if hs.len() == 0 { 0 } else { route_flow(hs.drop_last(), tr.drop_last(), k, x) + swap_flow(hs.last().pool_key, hs.last().x_to_y, tr.last().res, k, x) } }
pub open spec fn steps_of(ss: Seq<Seq<SwRec>>) -> int
    decreases ss.len()
{ if ss.len() == 0 { 0 } else { steps_of(ss.drop_last()) + ss.last().len() } }
pub proof fn lemma_covered_two(s: SV, u: SV, t: SV, k: PoolKey, x: bool, f: int, n: int, g: int, o: int)
    requires covered(s, u, k, x, f, n), covered(u, t, k, x, g, o)
    ensures covered(s, t, k, x, f + g, n + o)
{ lemma_eps(n, o); assert((f + g) as real == (f as real) + (g as real)); }
pub proof fn lemma_covered_self(s: SV, k: PoolKey, x: bool) ensures covered(s, s, k, x, 0, 0) { lemma_eps(0, 0); }
pub proof fn lemma_route_covered(hs: Seq<SwapHop>, tr: Seq<RtRec>, ss: Seq<Seq<SwRec>>, now: u64, sender: Seq<u8>, me: Seq<u8>, st0: RtSt, st: RtSt, k: PoolKey, x: bool)
    requires inv(st0.s), rt_run(hs, tr, now, sender, me, st0, st), hop_steps(hs, tr, ss, now), pk_ok(k)
    ensures covered(st0.s, st.s, k, x, route_flow(hs, tr, k, x), steps_of(ss))
    decreases hs.len()
{
    if hs.len() == 0 { lemma_covered_self(st.s, k, x); }
    else {
        let r = tr.last(); let h = hs.last(); let l = ss.last();
        lemma_route_covered(hs.drop_last(), tr.drop_last(), ss.drop_last(), now, sender, me, st0, r.pre, k, x);
        lemma_inv_route(hs.drop_last(), tr.drop_last(), now, sender, me, st0, r.pre);
        lemma_swap_covered(rt_arg(r.pre.s, h, now), r.pre.amt, l, r.res, k, x);
        assert(st.s == sw_store(r.pre.s, h.pool_key, r.res));
        lemma_covered_two(st0.s, r.pre.s, st.s, k, x, route_flow(hs.drop_last(), tr.drop_last(), k, x), steps_of(ss.drop_last()), swap_flow(h.pool_key, h.x_to_y, r.res, k, x), l.len() as int);
    }
}
pub open spec fn pick(x: bool, a: int, b: int) -> int { if x { a } else { b } }
/// opening a position
pub proof fn lemma_created_covered(s: SV, t: SV, a: PosArg, w: PosW, m: Seq<MV>, k: PoolKey, x: bool)
    requires inv(s), pos_created_w(s, t, a, w, m), a.delta > 0, pk_ok(k)
    ensures covered(s, t, k, x, if k == a.k { pick(x, w.x, w.y) } else { 0 }, 1)
{
    lemma_inv_created(s, t, a, w, m);
    lemma_created_kept(s, t, a, w, m);
    lemma_inv_idx(s, a.k);
    lemma_got(s, w.s1, a.k, a.lower, a.now, w.lo);
    lemma_got(w.s1, w.s2, a.k, a.upper, a.now, w.up);
    let pre = SV { pools: s.pools.insert(pkey(a.k), w.p2), ..w.s2 };
    let t2 = SV { ticks: w.s2.ticks, ..t };
    let q = w.pos2;
    assert(pre.positions == s.positions && pre.plen == s.plen);
    assert(inv_list(pre)) by { assert forall|b: Seq<u8>, i: int| 0 <= i < 0x100000000 implies (pre.positions.contains_key(#[trigger] poskey(b, i)) <==> i < plen_of(pre, b)) by { assert(s.positions.contains_key(poskey(b, i)) <==> i < plen_of(s, b)); } }
    lemma_liab_added(pre, t2, a.who, q, t, k, x);
    lemma_eps(1, 0);
    if has(s, k) {
        if k != a.k { if pkey(k) == pkey(a.k) { lemma_pkey_inj(k, a.k); } }
        lemma_ranged(s, k); lemma_ranged(t, k);
        let key = poskey(a.who, plen_of(pre, a.who));
        assert(!s.positions.contains_key(key)) by { assert(pre.positions.contains_key(poskey(a.who, plen_of(pre, a.who))) <==> plen_of(pre, a.who) < plen_of(pre, a.who)); }
        assert(t.positions.contains_key(key) && t.positions[key] == q);
        assert(ranged(s.positions, t, k)) by {
            assert forall|j: Seq<u8>| #[trigger] s.positions.contains_key(j) && s.positions[j].pool_key == k implies range_of(t, k, s.positions[j].lower_tick_index, s.positions[j].upper_tick_index) by { assert(t.positions.contains_key(j) && t.positions[j] == s.positions[j]); }
        }
        lemma_liab_kept(s.positions, s, t, k, x);
        if k == a.k {
            assert(q.pool_key == k);
            assert(pos_wf(t, q));
            assert(pool_inv(s, k));
            assert(w.lo.index == q.lower_tick_index && w.up.index == q.upper_tick_index);
            lemma_amount_covers(w.p, q, x);
            // the snapshot is the growth inside the range now
            lemma_position_range(t, key);
            assert(t.ticks == two_ticks(w.s2.ticks, k, w.lo2, w.up2));
            if tkey(k, q.lower_tick_index) == tkey(k, q.upper_tick_index) { lemma_tkey_inj(k, q.lower_tick_index, k, q.upper_tick_index); }
            assert(t.ticks[tkey(k, q.lower_tick_index)] == w.lo2 && t.ticks[tkey(k, q.upper_tick_index)] == w.up2);
            assert(t.pools[pkey(k)] == w.p2);
            let now = inside(t, k, q.lower_tick_index, q.upper_tick_index, x);
            assert(now == snap(q, x));
            assert(wsub(now, snap(q, x)) == 0);
            lemma_share(q.liquidity.0 as int, 0, 0);
            assert(recorded(q, x) == 0) by { let g = wsub(pick(x, q.fee_growth_inside_x.0 as int, q.fee_growth_inside_y.0 as int), pick(x, w.pos.fee_growth_inside_x.0 as int, w.pos.fee_growth_inside_y.0 as int)); lemma_zero_fee(g); }
        }
    } else {
        assert(k != a.k); if pkey(k) == pkey(a.k) { lemma_pkey_inj(k, a.k); }
    }
}
pub proof fn lemma_zero_fee(g: int) ensures fee_of(g, 0) == 0 { assert(g * 0 == 0) by (nonlinear_arith); assert(0int / E34() == 0) by (compute); }
/// the fee recorded at an update is at most the exact share
pub proof fn lemma_fee_share(g: int, l: int) ensures (fee_of(g, l) as real) <= share(l, g)
{ lemma_floor(g * l, E34()); lemma_share_le(l, g, fee_of(g, l)); }
/// claiming
pub proof fn lemma_claimed_covered(s: SV, t: SV, who: Seq<u8>, i: int, now: u64, w: PosW, m: Seq<MV>, k: PoolKey, x: bool)
    requires inv(s), fee_claimed_w(s, t, who, i, now, w, m), pk_ok(k)
    ensures covered(s, t, k, x, if k == w.pos.pool_key { -pick(x, w.pos2.tokens_owed_x.0 as int, w.pos2.tokens_owed_y.0 as int) } else { 0 }, 0)
{
    lemma_inv_claimed(s, t, who, i, now, w, m);
    lemma_claimed_kept(s, t, who, i, now, w, m);
    lemma_eps(0, 0);
    let kk = w.pos.pool_key; let id = poskey(who, i);
    let p = Position { tokens_owed_x: TokenAmount(0), tokens_owed_y: TokenAmount(0), ..w.pos2 };
    assert(t.positions == s.positions.insert(id, p));
    if k != kk { if pkey(k) == pkey(kk) { assert(pos_wf(s, w.pos)); lemma_pkey_inj(k, kk); } }
    if has(s, k) {
        lemma_ranged(s, k); lemma_ranged(t, k);
        lemma_liab_rewritten(s.positions, id, p, s, k, x);
        assert(ranged(t.positions, s, k)) by {
            assert forall|j: Seq<u8>| #[trigger] t.positions.contains_key(j) && t.positions[j].pool_key == k implies range_of(s, k, t.positions[j].lower_tick_index, t.positions[j].upper_tick_index) by { assert(s.positions.contains_key(j)); }
        }
        lemma_liab_kept(t.positions, s, t, k, x);
        if k == kk { 
            lemma_claim_drop(s, w, p, k, x);
        }
    }
}
/// recording the fees moves at most the exact share into the counter and restarts the share at zero
pub proof fn lemma_claim_drop(s: SV, w: PosW, p: Position, k: PoolKey, x: bool)
    requires inv(s), k == w.pos.pool_key, w.p == s.pools[pkey(k)], w.lo == s.ticks[tkey(k, w.pos.lower_tick_index)], w.up == s.ticks[tkey(k, w.pos.upper_tick_index)],
        position_update(w.pos, w.pos2, true, 0, w.pos2.fee_growth_inside_x, w.pos2.fee_growth_inside_y), snap(w.pos2, x) == ins(w.p, w.lo, w.up, x),
        p == (Position { tokens_owed_x: TokenAmount(0), tokens_owed_y: TokenAmount(0), ..w.pos2 })
    ensures claim(p, s, k, x) + (pick(x, w.pos2.tokens_owed_x.0 as int, w.pos2.tokens_owed_y.0 as int) as real) <= claim(w.pos, s, k, x)
{
    let now = inside(s, k, w.pos.lower_tick_index, w.pos.upper_tick_index, x);
    let l = w.pos.liquidity.0 as int; let g = wsub(now, snap(w.pos, x));
    assert(now == snap(p, x));
    lemma_share(l, 0, 0);
    lemma_fee_share(g, l);
    assert(pick(x, w.pos2.tokens_owed_x.0 as int, w.pos2.tokens_owed_y.0 as int) == recorded(w.pos, x) + fee_of(g, l));
    assert(p.liquidity == w.pos.liquidity);
}
/// closing
pub proof fn lemma_closed_covered(s: SV, t: SV, who: Seq<u8>, i: int, now: u64, w: PosW, m: Seq<MV>, k: PoolKey, x: bool)
    requires inv(s), pos_closed_w(s, t, who, i, now, w, m), 0 <= i < 0x100000000, pk_ok(k)
    ensures covered(s, t, k, x, if k == w.pos.pool_key { -pick(x, w.x, w.y) } else { 0 }, 0)
{
    lemma_inv_closed(s, t, who, i, now, w, m);
    lemma_closed_kept(s, t, who, i, now, w, m);
    lemma_eps(0, 0);
    let kk = w.pos.pool_key; let p = w.pos;
    assert(pos_wf(s, p));
    if k != kk { if pkey(k) == pkey(kk) { lemma_pkey_inj(k, kk); } }
    assert(w.s2.positions == s.positions && w.s2.plen == s.plen);
    assert(inv_list(w.s2)) by { assert forall|b: Seq<u8>, j: int| 0 <= j < 0x100000000 implies (w.s2.positions.contains_key(#[trigger] poskey(b, j)) <==> j < plen_of(w.s2, b)) by { assert(s.positions.contains_key(poskey(b, j)) <==> j < plen_of(s, b)); } }
    if has(s, k) {
        lemma_ranged(s, k); lemma_ranged(t, k);
        lemma_liab_removed(w.s2, t, who, i, p, s, k, x);
        assert(ranged(t.positions, s, k)) by {
            assert(ranged(w.s2.positions, s, k));
            lemma_ranged_removed(w.s2, t, who, i, p, s, k);
        }
        lemma_liab_kept(t.positions, s, t, k, x);
        if k == kk {
            assert(pool_inv(s, k));
            assert(tick_inv(s, k, p.lower_tick_index) && tick_inv(s, k, p.upper_tick_index));
            lemma_amount_covers(w.p, p, x);
            let nw = inside(s, k, p.lower_tick_index, p.upper_tick_index, x); let g = wsub(nw, snap(p, x)); let l = p.liquidity.0 as int;
            lemma_fee_share(g, l);
            assert(nw == snap(w.pos2, x));
            assert(pick(x, w.pos2.tokens_owed_x.0 as int, w.pos2.tokens_owed_y.0 as int) == recorded(p, x) + fee_of(g, l));
            assert(pick(x, w.x, w.y) == amount_of(w.p, l, false, p.upper_tick_index as int, p.lower_tick_index as int, x) + recorded(p, x) + fee_of(g, l));
        }
    }
}
pub proof fn lemma_ranged_removed(s: SV, t: SV, a: Seq<u8>, i: int, p: Position, v: SV, k: PoolKey)
    requires inv_list(s), pos_removed(s, t, a, i, p), 0 <= i < 0x100000000, ranged(s.positions, v, k)
    ensures ranged(t.positions, v, k)
{
    let n = plen_of(s, a) - 1;
    assert(s.positions.contains_key(poskey(a, i)) <==> i < plen_of(s, a));
    assert(s.positions.contains_key(poskey(a, n)) <==> n < plen_of(s, a));
    assert forall|key: Seq<u8>| #[trigger] t.positions.contains_key(key) && t.positions[key].pool_key == k implies range_of(v, k, t.positions[key].lower_tick_index, t.positions[key].upper_tick_index) by {
        if i < n && key == poskey(a, i) { assert(s.positions.contains_key(poskey(a, n))); } else { assert(s.positions.contains_key(key)); }
    }
}
/// the same positions with the same claims: nothing changes
pub proof fn lemma_moved_covered(s: SV, t: SV, from: Seq<u8>, i: int, to: Seq<u8>, k: PoolKey, x: bool)
    requires inv(s), pos_moved(s, t, from, i, to), 0 <= i < 0x100000000
    ensures covered(s, t, k, x, 0, 0)
{
    let o = s.positions[poskey(from, i)];
    let (m, p) = choose|m: SV, p: Position| pos_removed(s, m, from, i, s.positions[poskey(from, i)]) && p == (Position { approvals: p.approvals, ..s.positions[poskey(from, i)] }) && p.approvals@.len() == 0 && #[trigger] pos_added(m, t, to, p);
    lemma_removed(s, m, from, i, o);
    lemma_liab_removed(s, m, from, i, o, s, k, x);
    lemma_liab_added(m, t, to, p, s, k, x);
    assert(claim(p, s, k, x) == claim(o, s, k, x));
    lemma_eps(0, 0);
    lemma_same_store(t.positions, s, t, k, x);
}
/// sums depend on pools and ticks only
pub proof fn lemma_same_store(m: Map<Seq<u8>, Position>, s: SV, t: SV, k: PoolKey, x: bool)
    requires s.ticks == t.ticks, has(s, k) ==> has(t, k) && s.pools[pkey(k)].sqrt_price == t.pools[pkey(k)].sqrt_price && glob(s.pools[pkey(k)], x) == glob(t.pools[pkey(k)], x) && s.pools[pkey(k)].current_tick_index == t.pools[pkey(k)].current_tick_index
    ensures has(s, k) ==> liab(m, t, k, x) - (proto(t.pools[pkey(k)], x) as real) == liab(m, s, k, x) - (proto(s.pools[pkey(k)], x) as real)
{
    if has(s, k) {
        let (f, g) = (fw(k, fin_s(s, k, x), x), fw(k, fin_s(t, k, x), x));
        lemma_rsum_eq(m, f, g);
    }
}
pub proof fn lemma_approved_covered(s: SV, t: SV, id: Seq<u8>, p: Position, k: PoolKey, x: bool)
    requires s.positions.contains_key(id), p == (Position { approvals: p.approvals, ..s.positions[id] }), t == (SV { positions: s.positions.insert(id, p), ..s })
    ensures covered(s, t, k, x, 0, 0)
{
    lemma_liab_rewritten(s.positions, id, p, s, k, x);
    assert(claim(p, s, k, x) == claim(s.positions[id], s, k, x));
    lemma_eps(0, 0);
    lemma_same_store(t.positions, s, t, k, x);
}
/// no position refers to a pool that does not exist: a new pool owes nothing
pub proof fn lemma_opened_covered(s: SV, t: SV, now: u64, a: Seq<u8>, b: Seq<u8>, ft: FeeTier, price: SqrtPrice, tick: i32, kk: PoolKey, k: PoolKey, x: bool)
    requires inv(s), pool_created(s, t, now, a, b, ft, price, tick, kk), pk_ok(k)
    ensures covered(s, t, k, x, 0, 0)
{
    lemma_eps(0, 0);
    if k == kk {
        let m = s.positions; let (f, g) = (vw(k, t.pools[pkey(k)].sqrt_price.0 as int, x), fw(k, fin_s(t, k, x), x));
        assert forall|key: Seq<u8>| #[trigger] m.contains_key(key) implies f(m[key]) == 0real && g(m[key]) == 0real by { assert(pos_wf(s, m[key])); }
        lemma_rsum_zero(m, f); lemma_rsum_zero(m, g);
    } else {
        if pkey(k) == pkey(kk) { lemma_pkey_inj(k, kk); }
        lemma_same_store(t.positions, s, t, k, x);
    }
}
/// what the transfers of a message bring to pool k in one token (f), and how many roundings may each lose less than 10^-14 base units (n)
pub open spec fn flow_of(s: SV, t: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, m: Seq<MV>, k: PoolKey, x: bool, f: int, n: int) -> bool {
    let who = info.sender@; let now = env.block.time.millis_spec(); let me = env.contract.address@;
    match msg {
        ExecuteMsg::Swap { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => exists|res: CalculateSwapResult, tr: Seq<SwRec>| {
            &&& #[trigger] sw_done(sw_arg(s, env, pool_key, x_to_y, by_amount_in, sqrt_price_limit), amount.0 as int, tr, res)
            &&& m == Seq::<MV>::empty() + sw_msgs(pool_key, x_to_y, res, info, me)
            &&& f == swap_flow(pool_key, x_to_y, res, k, x) && n == tr.len() },
        ExecuteMsg::SwapRoute { amount_in, expected_amount_out, slippage, swaps } => exists|tr: Seq<RtRec>, ss: Seq<Seq<SwRec>>, st: RtSt| {
            &&& #[trigger] rt_run(swaps@, tr, now, who, me, RtSt { s, amt: amount_in.0 as int, funds: info.funds@, m: Seq::<MV>::empty() }, st) && st.s == t && st.m == m && #[trigger] hop_steps(swaps@, tr, ss, now)
            &&& f == route_flow(swaps@, tr, k, x) && n == steps_of(ss) },
        ExecuteMsg::CreatePosition { pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper } => exists|w: PosW|
            pos_created_w(s, t, pos_arg(env, info, pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper), w, m) && f == (if k == pool_key { pick(x, w.x, w.y) } else { 0 }) && n == 1,
        ExecuteMsg::Mint { extension: e } => exists|w: PosW|
            pos_created_w(s, t, pos_arg(env, info, e.pool_key, e.lower_tick, e.upper_tick, e.liquidity_delta, e.slippage_limit_lower, e.slippage_limit_upper), w, m) && f == (if k == e.pool_key { pick(x, w.x, w.y) } else { 0 }) && n == 1,
        ExecuteMsg::ClaimFee { index } => exists|w: PosW| fee_claimed_w(s, t, who, index as int, now, w, m) && f == (if k == w.pos.pool_key { -pick(x, w.pos2.tokens_owed_x.0 as int, w.pos2.tokens_owed_y.0 as int) } else { 0 }) && n == 0,
        ExecuteMsg::RemovePosition { index } => exists|w: PosW| pos_closed_w(s, t, who, index as int, now, w, m) && f == (if k == w.pos.pool_key { -pick(x, w.x, w.y) } else { 0 }) && n == 0,
        ExecuteMsg::Burn { token_id } => exists|i: u32, w: PosW| token_id@ == poskey(owner_of(token_id@), i as int) && #[trigger] pos_closed_w(s, t, owner_of(token_id@), i as int, now, w, m) && f == (if k == w.pos.pool_key { -pick(x, w.x, w.y) } else { 0 }) && n == 0,
        ExecuteMsg::WithdrawProtocolFee { pool_key } => f == (if pkey(k) == pkey(pool_key) { -proto(s.pools[pkey(k)], x) } else { 0 }) && n == 0,
        _ => f == 0 && n == 0,
    }
}
pub open spec fn booked(s: SV, t: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, m: Seq<MV>, k: PoolKey, x: bool, f: int, n: int) -> bool { flow_of(s, t, env, info, msg, m, k, x, f, n) && covered(s, t, k, x, f, n) && n >= 0 }
pub proof fn lemma_steps_pos(ss: Seq<Seq<SwRec>>) ensures steps_of(ss) >= 0 decreases ss.len() { if ss.len() > 0 { lemma_steps_pos(ss.drop_last()); } }
/// A21: whatever message is executed, what a pool owes grows by no more than what the message's transfers bring in
pub proof fn lemma_executed_covered(s: SV, t: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, out: Seq<CosmosMsg>, k: PoolKey, x: bool) -> (fl: (int, int))
    requires inv(s), executed(s, t, env, info, msg, out), pk_ok(k)
    ensures booked(s, t, env, info, msg, mvs(out), k, x, fl.0, fl.1)
{
    let who = info.sender@; let now = env.block.time.millis_spec(); let m = mvs(out); let me = env.contract.address@;
    lemma_eps(0, 0);
    match msg {
        ExecuteMsg::Swap { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => {
            let a = sw_arg(s, env, pool_key, x_to_y, by_amount_in, sqrt_price_limit);
            let res = choose|res: CalculateSwapResult| #[trigger] swapped(a, amount.0 as int, res, t, info, me, Seq::<MV>::empty(), m);
            let tr = choose|tr: Seq<SwRec>| sw_done(a, amount.0 as int, tr, res);
            lemma_swap_covered(a, amount.0 as int, tr, res, k, x);
            (swap_flow(pool_key, x_to_y, res, k, x), tr.len() as int)
        }
        ExecuteMsg::SwapRoute { amount_in, expected_amount_out, slippage, swaps } => {
            let st0 = RtSt { s, amt: amount_in.0 as int, funds: info.funds@, m: Seq::<MV>::empty() };
            let st = choose|st: RtSt| st.s == t && st.m == m && st.amt >= min_out(expected_amount_out.0 as int, slippage.0 as int) && #[trigger] rt_ok(swaps@, now, who, me, st0, st);
            let tr = choose|tr: Seq<RtRec>| rt_run(swaps@, tr, now, who, me, st0, st);
            let ss = lemma_route_steps(swaps@, tr, now, who, me, st0, st);
            lemma_route_covered(swaps@, tr, ss, now, who, me, st0, st, k, x);
            lemma_steps_pos(ss);
            (route_flow(swaps@, tr, k, x), steps_of(ss))
        }
        ExecuteMsg::CreatePosition { pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper } => {
            let a = pos_arg(env, info, pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper);
            let w = choose|w: PosW| pos_created_w(s, t, a, w, m);
            lemma_created_covered(s, t, a, w, m, k, x);
            (if k == pool_key { pick(x, w.x, w.y) } else { 0 }, 1)
        }
        ExecuteMsg::Mint { extension: e } => {
            let a = pos_arg(env, info, e.pool_key, e.lower_tick, e.upper_tick, e.liquidity_delta, e.slippage_limit_lower, e.slippage_limit_upper);
            let w = choose|w: PosW| pos_created_w(s, t, a, w, m);
            lemma_created_covered(s, t, a, w, m, k, x);
            (if k == e.pool_key { pick(x, w.x, w.y) } else { 0 }, 1)
        }
        ExecuteMsg::ClaimFee { index } => {
            let w = choose|w: PosW| fee_claimed_w(s, t, who, index as int, now, w, m);
            lemma_claimed_covered(s, t, who, index as int, now, w, m, k, x);
            (if k == w.pos.pool_key { -pick(x, w.pos2.tokens_owed_x.0 as int, w.pos2.tokens_owed_y.0 as int) } else { 0 }, 0)
        }
        ExecuteMsg::RemovePosition { index } => {
            let w = choose|w: PosW| pos_closed_w(s, t, who, index as int, now, w, m);
            lemma_closed_covered(s, t, who, index as int, now, w, m, k, x);
            (if k == w.pos.pool_key { -pick(x, w.x, w.y) } else { 0 }, 0)
        }
        ExecuteMsg::Burn { token_id } => {
            let o = owner_of(token_id@); let i = choose|i: u32| token_id@ == poskey(o, i as int) && #[trigger] pos_closed(s, t, o, i as int, now, m);
            let w = choose|w: PosW| pos_closed_w(s, t, o, i as int, now, w, m);
            lemma_closed_covered(s, t, o, i as int, now, w, m, k, x);
            (if k == w.pos.pool_key { -pick(x, w.x, w.y) } else { 0 }, 0)
        }
        ExecuteMsg::WithdrawProtocolFee { pool_key } => {
            lemma_same_store(s.positions, s, t, k, x);
            (if pkey(k) == pkey(pool_key) { -proto(s.pools[pkey(k)], x) } else { 0 }, 0)
        }
        ExecuteMsg::CreatePool { token_0, token_1, fee_tier, init_sqrt_price, init_tick } => {
            let kk = choose|k: PoolKey| #[trigger] pool_created(s, t, now, token_0@, token_1@, fee_tier, init_sqrt_price, init_tick, k);
            lemma_opened_covered(s, t, now, token_0@, token_1@, fee_tier, init_sqrt_price, init_tick, kk, k, x);
            (0, 0)
        }
        ExecuteMsg::Approve { spender, token_id, expires } => { let p = choose|p: Position| #[trigger] approvals_updated(s, t, token_id@, who, env.block, spender@, true, expires, p); lemma_approved_covered(s, t, token_id@, p, k, x); (0, 0) }
        ExecuteMsg::Revoke { spender, token_id } => { let p = choose|p: Position| #[trigger] approvals_updated(s, t, token_id@, who, env.block, spender@, false, None, p); lemma_approved_covered(s, t, token_id@, p, k, x); (0, 0) }
        ExecuteMsg::TransferPosition { index, receiver } => { lemma_moved_covered(s, t, who, index as int, receiver@, k, x); (0, 0) }
        ExecuteMsg::TransferNft { recipient, token_id } => { let o = owner_of(token_id@); let i = choose|i: u32| token_id@ == poskey(o, i as int) && #[trigger] pos_moved(s, t, o, i as int, recipient@); lemma_moved_covered(s, t, o, i as int, recipient@, k, x); (0, 0) }
        ExecuteMsg::SendNft { contract, token_id, msg } => { let o = owner_of(token_id@); let i = choose|i: u32| token_id@ == poskey(o, i as int) && #[trigger] pos_moved(s, t, o, i as int, contract@); lemma_moved_covered(s, t, o, i as int, contract@, k, x); (0, 0) }
        _ => { lemma_same_store(s.positions, s, t, k, x); (0, 0) }
    }
}
// ---- histories ----
pub ghost struct Ev { pub s: SV, pub t: SV, pub env: Env, pub info: MessageInfo, pub msg: ExecuteMsg, pub out: Seq<CosmosMsg> }
/// a history: the messages executed since the contract was created
pub open spec fn history(h: Seq<Ev>, s0: SV, t: SV) -> bool
    decreases h.len()
{ if h.len() == 0 { t == s0 } else { h.last().t == t && executed(h.last().s, t, h.last().env, h.last().info, h.last().msg, h.last().out) && history(h.drop_last(), s0, h.last().s) } }
/// the flows of each message add up to f
pub open spec fn ledger(h: Seq<Ev>, fs: Seq<(int, int)>, k: PoolKey, x: bool, f: int, n: int) -> bool
    decreases h.len()
{
    if h.len() == 0 { f == 0 && n == 0 }
    else {
        &&& fs.len() > 0 && flow_of(h.last().s, h.last().t, h.last().env, h.last().info, h.last().msg, mvs(h.last().out), k, x, fs.last().0, fs.last().1)
        &&& ledger(h.drop_last(), fs.drop_last(), k, x, f - fs.last().0, n - fs.last().1)
    }
}
/// A21: after any history, what a pool owes is at most what was paid in for it less what was paid out (up to n roundings of less than 10^-14 base units each);
/// in particular it never pays out more than was paid in
pub proof fn lemma_solvent(h: Seq<Ev>, e: SV, who: Seq<u8>, fee: crate::math::types::percentage::Percentage, s0: SV, t: SV, k: PoolKey, x: bool) -> (r: (Seq<(int, int)>, int, int))
    requires fresh(e), instantiated(e, s0, who, fee), history(h, s0, t), pk_ok(k)
    ensures inv(t), ledger(h, r.0, k, x, r.1, r.2), owed0(t, k, x) <= (r.1 as real) + eps_n(r.2), r.2 >= 0, owed0(t, k, x) >= 0real, r.2 < 100000000000000 ==> r.1 >= 0
    decreases h.len()
{
    let r = if h.len() == 0 {
        lemma_inv_init(e, s0, who, fee);
        lemma_eps(0, 0);
        assert(!s0.pools.contains_key(pkey(k))) by { assert(s0.pools == e.pools); if e.pools.contains_key(pkey(k)) { assert(e.pools.dom().contains(pkey(k))); assert(e.pools.dom() =~= Set::<Seq<u8>>::empty()) by { } } }
        (Seq::<(int, int)>::empty(), 0, 0)
    } else {
        let v = h.last();
        let q = lemma_solvent(h.drop_last(), e, who, fee, s0, v.s, k, x);
        let fl = lemma_executed_covered(v.s, v.t, v.env, v.info, v.msg, v.out, k, x);
        lemma_inv_executed(v.s, v.t, v.env, v.info, v.msg, v.out);
        lemma_eps(q.2, fl.1);
        assert((q.1 + fl.0) as real == (q.1 as real) + (fl.0 as real));
        assert(q.0.push(fl).drop_last() =~= q.0);
        (q.0.push(fl), q.1 + fl.0, q.2 + fl.1)
    };
    if has(t, k) { lemma_owed_pos(t, k, x); }
    lemma_below_one(r.1, r.2);
    r
}
pub proof fn lemma_below_one(f: int, n: int)
    ensures 0real <= (f as real) + eps_n(n) && 0 <= n < 100000000000000 ==> f >= 0
{
    if 0real <= (f as real) + eps_n(n) && 0 <= n < 100000000000000 && f < 0 {
        let (a, e) = (n as real, EPS());
        assert(a < 100000000000000real);
        assert(a * e < 1real) by (nonlinear_arith) requires a < 100000000000000real, e == 1real / 100000000000000real;
        assert((f as real) <= -1real);
    }
}
} // verus!
} // mod vsol
