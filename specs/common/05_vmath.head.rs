// Mathematical definitions and lemmas (all lemmas are proved by the verifier, none is assumed).
pub mod vmath {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use crate::prelude::cdiv;
verus! {
pub open spec fn E6() -> int { 1000000 }
pub open spec fn E12() -> int { 1000000000000 }
pub open spec fn E18() -> int { 1000000000000000000 }
pub open spec fn E24() -> int { 1000000000000000000000000 }
pub open spec fn E28() -> int { 10000000000000000000000000000 }
pub open spec fn E34() -> int { 10000000000000000000000000000000000 }
pub open spec fn vmin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn vmaxi(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn vabs(a: int) -> int { if a >= 0 { a } else { -a } }

// ---- token amounts of a price move (prices scaled 1e24, liquidity 1e6, amounts 1) ----
pub open spec fn dx_up(a: int, b: int, l: int) -> int { cdiv(cdiv((vabs(a - b) * l / E6()) * E24(), a * b / E24()), E24()) }
pub open spec fn dx_dn(a: int, b: int, l: int) -> int { ((vabs(a - b) * l / E6()) * E24() / cdiv(a * b, E24())) / E24() }
pub open spec fn dy_up(a: int, b: int, l: int) -> int { cdiv(cdiv(vabs(a - b) * l, E6()), E24()) }
pub open spec fn dy_dn(a: int, b: int, l: int) -> int { (vabs(a - b) * l / E6()) / E24() }
pub open spec fn dx(a: int, b: int, l: int, up: bool) -> int { if up { dx_up(a, b, l) } else { dx_dn(a, b, l) } }
pub open spec fn dy(a: int, b: int, l: int, up: bool) -> int { if up { dy_up(a, b, l) } else { dy_dn(a, b, l) } }
// ---- price reached after adding / removing an amount ----
pub open spec fn nx_add(p: int, l: int, x: int) -> int { if x == 0 { p } else { cdiv(cdiv(p * l, E6()) * E24(), l * E18() + p * x) } }
pub open spec fn nx_sub(p: int, l: int, x: int) -> int { if x == 0 { p } else { cdiv(cdiv(p * l, E6()) * E24(), l * E18() - p * x) } }
pub open spec fn ny_add(p: int, l: int, y: int) -> int { p + (y * E24()) * E24() / (l * E18()) }
pub open spec fn ny_sub(p: int, l: int, y: int) -> int { p - cdiv((y * E24()) * E24(), l * E18()) }

// ---- cdiv is the ceiling ----
pub proof fn lemma_cdiv(a: int, b: int)
    requires b > 0
    ensures cdiv(a, b) * b >= a, (cdiv(a, b) - 1) * b < a, cdiv(a, b) * b <= a + b - 1,
        a >= 0 ==> cdiv(a, b) >= 0, a > 0 ==> cdiv(a, b) > 0, a / b <= cdiv(a, b) <= a / b + 1
{
    let q = (a + b - 1) / b; let r = (a + b - 1) % b;
    lemma_fundamental_div_mod(a + b - 1, b);
    lemma_mod_bound(a + b - 1, b);
    assert(q * b == b * q) by (nonlinear_arith);
    assert((q - 1) * b == q * b - b) by (nonlinear_arith);
    if a >= 0 { lemma_div_pos_is_pos(a + b - 1, b); }
    if a > 0 { assert(q >= 1) by (nonlinear_arith) requires q * b >= a, a > 0, b > 0; }
    lemma_div_is_ordered(a, a + b - 1, b);
    lemma_div_is_ordered(a + b - 1, a + b, b);
    lemma_hoist_over_denominator(a, 1, b as nat);
}
pub proof fn lemma_floor(a: int, b: int)
    requires b > 0
    ensures (a / b) * b <= a, a < (a / b + 1) * b, a >= 0 ==> a / b >= 0
{
    lemma_fundamental_div_mod(a, b); lemma_mod_bound(a, b);
    assert((a / b) * b == b * (a / b)) by (nonlinear_arith);
    assert((a / b + 1) * b == (a / b) * b + b) by (nonlinear_arith);
    if a >= 0 { lemma_div_pos_is_pos(a, b); }
}
/// k is an upper bound of the ceiling as soon as k*b covers a
pub proof fn lemma_cdiv_le(a: int, b: int, k: int)
    requires b > 0, a <= k * b
    ensures cdiv(a, b) <= k
{ lemma_cdiv(a, b); assert(cdiv(a, b) - 1 < k) by (nonlinear_arith) requires (cdiv(a, b) - 1) * b < a, a <= k * b, b > 0; }
pub proof fn lemma_cdiv_ge(a: int, b: int, k: int)
    requires b > 0, (k - 1) * b < a
    ensures cdiv(a, b) >= k
{ lemma_cdiv(a, b); assert(cdiv(a, b) > k - 1) by (nonlinear_arith) requires cdiv(a, b) * b >= a, (k - 1) * b < a, b > 0; }
pub proof fn lemma_floor_ge(a: int, b: int, k: int)
    requires b > 0, k * b <= a
    ensures a / b >= k
{ lemma_floor(a, b); assert(k < a / b + 1) by (nonlinear_arith) requires k * b <= a, a < (a / b + 1) * b, b > 0; }
pub proof fn lemma_floor_le(a: int, b: int, k: int)
    requires b > 0, a < (k + 1) * b
    ensures a / b <= k
{ lemma_floor(a, b); assert(a / b < k + 1) by (nonlinear_arith) requires (a / b) * b <= a, a < (k + 1) * b, b > 0; }
pub proof fn lemma_cdiv_mono(a: int, c: int, b: int)
    requires b > 0, a <= c
    ensures cdiv(a, b) <= cdiv(c, b)
{ lemma_div_is_ordered(a + b - 1, c + b - 1, b); }

// ---- A03: adding then removing never gains ----
pub proof fn lemma_dx_round(a: int, b: int, l: int)
    requires a >= 0, b >= 0, l >= 0, a * b / E24() > 0
    ensures 0 <= dx_dn(a, b, l) <= dx_up(a, b, l)
{
    let n = (vabs(a - b) * l / E6()) * E24();
    assert(vabs(a - b) * l >= 0) by (nonlinear_arith) requires vabs(a - b) >= 0, l >= 0;
    lemma_floor(vabs(a - b) * l, E6());
    let d1 = a * b / E24(); let d2 = cdiv(a * b, E24());
    lemma_cdiv(a * b, E24());
    let q2 = n / d2; let q1 = cdiv(n, d1);
    lemma_floor(n, d2); lemma_cdiv(n, d1);
    assert(q2 <= q1) by (nonlinear_arith) requires q2 * d2 <= n, n <= q1 * d1, d1 <= d2, d1 > 0, q1 >= 0, q2 >= 0;
    lemma_floor(q2, E24()); lemma_cdiv(q1, E24());
    lemma_div_is_ordered(q2, q1 + E24() - 1, E24());
}
pub proof fn lemma_dy_round(a: int, b: int, l: int)
    requires l >= 0
    ensures 0 <= dy_dn(a, b, l) <= dy_up(a, b, l)
{
    assert(vabs(a - b) * l >= 0) by (nonlinear_arith) requires vabs(a - b) >= 0, l >= 0;
    let n = vabs(a - b) * l;
    lemma_floor(n, E6()); lemma_cdiv(n, E6());
    lemma_floor(n / E6(), E24()); lemma_cdiv(cdiv(n, E6()), E24());
    lemma_div_is_ordered(n / E6(), cdiv(n, E6()) + E24() - 1, E24());
}

// ---- one swap step (A04): the function the contract and the SDK both compute ----
pub open spec fn step_aaf(amt: int, by_in: bool, fee: int) -> int { if by_in { amt * (E12() - fee) / E12() } else { amt } }
pub open spec fn step_next(cur: int, tgt: int, l: int, amt: int, by_in: bool, fee: int) -> int {
    let xy = cur >= tgt;
    if l == 0 { tgt } else if by_in {
        let aaf = step_aaf(amt, by_in, fee);
        let cost = if xy { dx_up(tgt, cur, l) } else { dy_up(cur, tgt, l) };
        if aaf >= cost { tgt } else if xy { vmaxi(nx_add(cur, l, aaf), tgt) } else { ny_add(cur, l, aaf) }
    } else {
        let out = if xy { dy_dn(tgt, cur, l) } else { dx_dn(cur, tgt, l) };
        if amt >= out { tgt } else if xy { ny_sub(cur, l, amt) } else { nx_sub(cur, l, amt) }
    }
}
pub open spec fn step_in(cur: int, tgt: int, l: int, amt: int, by_in: bool, fee: int) -> int {
    let next = step_next(cur, tgt, l, amt, by_in, fee);
    if l == 0 { 0 } else {
        let ain = if cur >= tgt { dx_up(next, cur, l) } else { dy_up(cur, next, l) };
        if by_in { vmin(ain, step_aaf(amt, by_in, fee)) } else { ain }
    }
}
pub open spec fn step_out(cur: int, tgt: int, l: int, amt: int, by_in: bool, fee: int) -> int {
    let next = step_next(cur, tgt, l, amt, by_in, fee);
    if l == 0 { 0 } else {
        let aout = if cur >= tgt { dy_dn(next, cur, l) } else { dx_dn(cur, next, l) };
        if by_in { aout } else { vmin(aout, amt) }
    }
}
pub open spec fn step_fee(cur: int, tgt: int, l: int, amt: int, by_in: bool, fee: int) -> int {
    let ain = step_in(cur, tgt, l, amt, by_in, fee);
    if l == 0 { 0 } else if by_in && step_next(cur, tgt, l, amt, by_in, fee) != tgt { amt - ain } else { cdiv(ain * fee, E12()) }
}

/// the bounds A04 lists, over the numbers a step returned
pub open spec fn step_ok(cur: int, tgt: int, l: int, amt: int, by_in: bool, fee: int, next: int, ain: int, aout: int, feeamt: int) -> bool {
    // direction and target
    &&& (cur >= tgt ==> tgt <= next <= cur) && (cur < tgt ==> cur <= next <= tgt)
    // amount limits
    &&& ain >= 0 && aout >= 0 && feeamt >= 0
    &&& (by_in ==> ain + feeamt <= amt) && (!by_in ==> aout <= amt)
    // input covers the cost of the move, output is covered by it (exact rationals, cross-multiplied)
    &&& (cur >= tgt ==> ain * next * cur >= E24() * ((cur - next) * l / E6()))
    &&& (cur < tgt ==> ain * E24() * E6() >= (next - cur) * l)
    &&& (cur >= tgt ==> aout * E24() * E6() <= (cur - next) * l)
    &&& (cur < tgt ==> aout * next * cur <= E24() * ((next - cur) * l / E6()))
    // fee
    &&& feeamt * E12() >= ain * fee
}

pub proof fn lemma_dx_up_cost(a: int, b: int, l: int)
    requires a >= 0, b >= 0, l >= 0, a * b / E24() > 0
    ensures dx_up(a, b, l) * (a * b) >= E24() * (vabs(a - b) * l / E6()), dx_up(a, b, l) >= 0
{
    let nom = vabs(a - b) * l / E6();
    assert(vabs(a - b) * l >= 0) by (nonlinear_arith) requires vabs(a - b) >= 0, l >= 0;
    lemma_floor(vabs(a - b) * l, E6());
    let n = nom * E24(); let d = a * b / E24();
    lemma_floor(a * b, E24());
    let q = cdiv(n, d); lemma_cdiv(n, d);
    let t = cdiv(q, E24()); lemma_cdiv(q, E24());
    assert(t * (d * E24()) >= n) by (nonlinear_arith) requires q * d >= n, t * E24() >= q, d > 0, E24() > 0;
    assert(t * (a * b) >= t * (d * E24())) by (nonlinear_arith) requires t >= 0, d * E24() <= a * b;
}
pub proof fn lemma_dx_dn_cost(a: int, b: int, l: int)
    requires a > 0, b > 0, l >= 0
    ensures dx_dn(a, b, l) * (a * b) <= E24() * (vabs(a - b) * l / E6()), dx_dn(a, b, l) >= 0,
        dx_dn(a, b, l) * cdiv(a * b, E24()) <= vabs(a - b) * l / E6()
{
    let nom = vabs(a - b) * l / E6();
    assert(vabs(a - b) * l >= 0) by (nonlinear_arith) requires vabs(a - b) >= 0, l >= 0;
    lemma_floor(vabs(a - b) * l, E6());
    let n = nom * E24(); let d = cdiv(a * b, E24());
    assert(a * b > 0) by (nonlinear_arith) requires a > 0, b > 0;
    lemma_cdiv(a * b, E24());
    let q = n / d; lemma_floor(n, d);
    let t = q / E24(); lemma_floor(q, E24());
    assert(t * d * E24() <= n) by (nonlinear_arith) requires q * d <= n, t * E24() <= q, d > 0;
    assert(t * d <= nom) by (nonlinear_arith) requires t * d * E24() <= nom * E24();
    assert(t * (a * b) <= t * d * E24()) by (nonlinear_arith) requires t >= 0, d * E24() >= a * b;
}
pub proof fn lemma_dy_up_cost(a: int, b: int, l: int)
    requires l >= 0
    ensures dy_up(a, b, l) * E24() * E6() >= vabs(a - b) * l, dy_up(a, b, l) >= 0
{
    let n = vabs(a - b) * l;
    assert(n >= 0) by (nonlinear_arith) requires n == vabs(a - b) * l, vabs(a - b) >= 0, l >= 0;
    lemma_cdiv(n, E6()); lemma_cdiv(cdiv(n, E6()), E24());
}
pub proof fn lemma_dy_dn_cost(a: int, b: int, l: int)
    requires l >= 0
    ensures dy_dn(a, b, l) * E24() * E6() <= vabs(a - b) * l, dy_dn(a, b, l) >= 0
{
    let n = vabs(a - b) * l;
    assert(n >= 0) by (nonlinear_arith) requires n == vabs(a - b) * l, vabs(a - b) >= 0, l >= 0;
    lemma_floor(n, E6()); lemma_floor(n / E6(), E24());
}
pub proof fn lemma_nx_add(p: int, l: int, x: int)
    requires p > 0, l > 0, x >= 0, p * p >= E24()
    ensures 0 <= nx_add(p, l, x) <= p, nx_add(p, l, x) * (p * x) >= l * E18() * (p - nx_add(p, l, x))
{
    if x > 0 {
        let c = cdiv(p * l, E6()); let n = c * E24(); let d = l * E18() + p * x; let r = cdiv(n, d);
        assert(p * l > 0) by (nonlinear_arith) requires p > 0, l > 0;
        lemma_cdiv(p * l, E6());
        assert(p * x > 0) by (nonlinear_arith) requires p > 0, x > 0;
        assert(n >= p * l * E18() && n <= p * l * E18() + E24()) by (nonlinear_arith) requires n == c * E24(), c * E6() >= p * l, c * E6() <= p * l + E6() - 1, E24() == E6() * E18(), E18() > 0, E6() > 0;
        assert(p * d >= p * l * E18() + E24()) by (nonlinear_arith) requires d == l * E18() + p * x, p * p >= E24(), x >= 1, p > 0;
        lemma_cdiv_le(n, d, p);
        lemma_cdiv(n, d);
        assert(r * (p * x) >= l * E18() * (p - r)) by (nonlinear_arith) requires r * d >= n, n >= p * l * E18(), d == l * E18() + p * x;
    } else {
        assert(p * (p * x) >= l * E18() * (p - p)) by (nonlinear_arith) requires x == 0;
    }
}
pub proof fn lemma_nx_sub(cur: int, tgt: int, l: int, x: int)
    requires cur > 0, tgt > cur, l > 0, x >= 0, cur * cur >= E24(), x < dx_dn(cur, tgt, l)
    ensures cur <= nx_sub(cur, l, x) <= tgt, l * E18() - cur * x > 0
{
    let o = dx_dn(cur, tgt, l); let den = cdiv(cur * tgt, E24()); let dl = (tgt - cur) * l;
    assert(cur * tgt >= E24()) by (nonlinear_arith) requires cur * cur >= E24(), tgt > cur, cur > 0;
    assert(vabs(cur - tgt) * l == dl);
    lemma_dx_dn_cost(cur, tgt, l);
    assert(dl > 0) by (nonlinear_arith) requires dl == (tgt - cur) * l, tgt > cur, l > 0;
    lemma_floor(dl, E6()); lemma_cdiv(cur * tgt, E24());
    assert(((x + 1) * (cur * tgt)) <= E24() * (dl / E6())) by (nonlinear_arith) requires x + 1 <= o, o * (cur * tgt) <= E24() * (dl / E6()), cur * tgt > 0;
    assert((x + 1) * (cur * tgt) <= dl * E18()) by (nonlinear_arith) requires (x + 1) * (cur * tgt) <= E24() * (dl / E6()), (dl / E6()) * E6() <= dl, E24() == E6() * E18(), E18() > 0;
    let d = l * E18() - cur * x;
    assert(tgt * d >= cur * l * E18() + cur * tgt) by (nonlinear_arith) requires (x + 1) * (cur * tgt) <= dl * E18(), dl == (tgt - cur) * l, d == l * E18() - cur * x;
    assert(cur * l > 0) by (nonlinear_arith) requires cur > 0, l > 0;
    assert(d > 0) by (nonlinear_arith) requires tgt * d >= cur * l * E18() + cur * tgt, cur * l > 0, E18() > 0, cur * tgt > 0, tgt > 0;
    if x > 0 {
        let c = cdiv(cur * l, E6()); let n = c * E24();
        lemma_cdiv(cur * l, E6());
        assert(n >= cur * l * E18() && n <= cur * l * E18() + E24()) by (nonlinear_arith) requires n == c * E24(), c * E6() >= cur * l, c * E6() <= cur * l + E6() - 1, E24() == E6() * E18(), E18() > 0, E6() > 0;
        lemma_cdiv_le(n, d, tgt);
        assert((cur - 1) * d < n) by (nonlinear_arith) requires n >= cur * l * E18(), d == l * E18() - cur * x, cur > 0, x >= 0, d > 0;
        lemma_cdiv_ge(n, d, cur);
    }
}
pub proof fn lemma_ny_add(cur: int, tgt: int, l: int, y: int)
    requires cur >= 0, tgt > cur, l > 0, y >= 0, y < dy_up(cur, tgt, l)
    ensures cur <= ny_add(cur, l, y) < tgt, (ny_add(cur, l, y) - cur) * l <= y * E24() * E6()
{
    let d = tgt - cur; let dl = d * l; let c = cdiv(dl, E6());
    assert(vabs(cur - tgt) * l == dl);
    lemma_cdiv(dl, E6()); lemma_cdiv(c, E24());
    assert(y * E24() < c) by (nonlinear_arith) requires y <= cdiv(c, E24()) - 1, (cdiv(c, E24()) - 1) * E24() < c, E24() > 0;
    assert(y * E24() * E6() < dl) by (nonlinear_arith) requires y * E24() <= c - 1, (c - 1) * E6() < dl, E6() > 0;
    let n = (y * E24()) * E24(); let b = l * E18(); let q = n / b;
    lemma_floor(n, b);
    assert(n < d * b) by (nonlinear_arith) requires n == (y * E24()) * E24(), b == l * E18(), y * E24() * E6() < d * l, E24() == E6() * E18(), E18() > 0;
    lemma_floor_le(n, b, d - 1);
    assert(q * l <= y * E24() * E6()) by (nonlinear_arith) requires q * b <= n, n == (y * E24()) * E24(), b == l * E18(), E24() == E6() * E18(), E18() > 0;
}
pub proof fn lemma_ny_sub(cur: int, tgt: int, l: int, y: int)
    requires tgt >= 0, cur >= tgt, l > 0, y >= 0, y < dy_dn(tgt, cur, l)
    ensures tgt <= ny_sub(cur, l, y) <= cur
{
    let d = cur - tgt; let dl = d * l;
    assert(vabs(tgt - cur) * l == dl);
    lemma_dy_dn_cost(tgt, cur, l);
    let n = (y * E24()) * E24(); let b = l * E18();
    assert(n <= d * b) by (nonlinear_arith) requires n == (y * E24()) * E24(), b == l * E18(), (y + 1) * E24() * E6() <= d * l, E24() == E6() * E18(), E18() > 0, E6() > 0;
    lemma_cdiv_le(n, b, d);
    lemma_cdiv(n, b);
}
/// every step computed as specified satisfies A04's bounds
pub proof fn lemma_step_ok(cur: int, tgt: int, l: int, amt: int, by_in: bool, fee: int)
    requires cur > 0, tgt > 0, cur * cur >= E24(), tgt * tgt >= E24(), l >= 0, amt >= 0, 0 <= fee, l > 0 && by_in ==> fee <= E12(),
    ensures step_ok(cur, tgt, l, amt, by_in, fee, step_next(cur, tgt, l, amt, by_in, fee), step_in(cur, tgt, l, amt, by_in, fee),
        step_out(cur, tgt, l, amt, by_in, fee), step_fee(cur, tgt, l, amt, by_in, fee))
{
    let next = step_next(cur, tgt, l, amt, by_in, fee);
    let ain = step_in(cur, tgt, l, amt, by_in, fee);
    let aout = step_out(cur, tgt, l, amt, by_in, fee);
    let feeamt = step_fee(cur, tgt, l, amt, by_in, fee);
    let aaf = step_aaf(amt, by_in, fee);
    let xy = cur >= tgt;
    if l > 0 && by_in {
        assert(amt * (E12() - fee) >= 0) by (nonlinear_arith) requires amt >= 0, fee <= E12();
        lemma_floor(amt * (E12() - fee), E12());
        assert(aaf <= amt && (amt - aaf) * E12() >= amt * fee) by (nonlinear_arith) requires aaf * E12() <= amt * (E12() - fee), fee >= 0, amt >= 0, E12() > 0;
    }
    if l == 0 {
        assert((cur - next) * 0 / E6() == 0) by { assert((cur - next) * 0 == 0); }
        assert((next - cur) * 0 / E6() == 0) by { assert((next - cur) * 0 == 0); }
        assert((cur - next) * l == 0 && (next - cur) * l == 0) by (nonlinear_arith) requires l == 0;
        assert(ain * next * cur == 0 && aout * next * cur == 0) by (nonlinear_arith) requires ain == 0, aout == 0;
        assert(ain * fee == 0) by (nonlinear_arith) requires ain == 0;
    } else {
        // price bounds and what the capped input pays for
        if by_in {
            if xy {
                if next != tgt || aaf < dx_up(tgt, cur, l) {
                    lemma_nx_add(cur, l, aaf);
                    let r = nx_add(cur, l, aaf);
                    assert(next >= r && next <= cur);
                    assert(aaf * next * cur >= l * E18() * (cur - next)) by (nonlinear_arith)
                        requires r * (cur * aaf) >= l * E18() * (cur - r), next >= r, aaf >= 0, cur > 0, l > 0, E18() > 0;
                    assert(aaf * next * cur >= E24() * ((cur - next) * l / E6())) by {
                        lemma_floor((cur - next) * l, E6());
                        assert(E24() * ((cur - next) * l / E6()) <= E18() * ((cur - next) * l)) by (nonlinear_arith)
                            requires ((cur - next) * l / E6()) * E6() <= (cur - next) * l, E24() == E6() * E18(), E18() > 0;
                        assert(E18() * ((cur - next) * l) == l * E18() * (cur - next)) by (nonlinear_arith);
                    }
                }
            } else if aaf < dy_up(cur, tgt, l) {
                lemma_ny_add(cur, tgt, l, aaf);
            }
        } else if xy {
            if amt < dy_dn(tgt, cur, l) { lemma_ny_sub(cur, tgt, l, amt); }
        } else if amt < dx_dn(cur, tgt, l) {
            lemma_nx_sub(cur, tgt, l, amt);
        }
        assert(next > 0);
        // cost of the move
        if xy {
            assert(next * next >= E24()) by (nonlinear_arith) requires next >= tgt, tgt * tgt >= E24(), tgt > 0;
            assert(next * cur >= E24()) by (nonlinear_arith) requires next >= tgt, cur >= tgt, tgt * tgt >= E24(), tgt > 0;
            lemma_floor_ge(next * cur, E24(), 1);
            lemma_dx_up_cost(next, cur, l);
            lemma_dy_dn_cost(next, cur, l);
            assert(vabs(next - cur) == cur - next);
            assert(dx_up(next, cur, l) * next * cur == dx_up(next, cur, l) * (next * cur)) by (nonlinear_arith);
        } else {
            lemma_dy_up_cost(cur, next, l);
            lemma_dx_dn_cost(cur, next, l);
            assert(vabs(cur - next) == next - cur);
            let o = dx_dn(cur, next, l);
            assert(o * next * cur == o * (cur * next)) by (nonlinear_arith);
            assert(aout * next * cur <= o * next * cur) by (nonlinear_arith) requires aout <= o, next > 0, cur > 0;
        }
        if by_in && !xy && aaf < dy_up(cur, next, l) {
            if aaf >= dy_up(cur, tgt, l) { } else { lemma_ny_add(cur, tgt, l, aaf); }
        }
        assert(aout >= 0);
        assert(ain >= 0);
        if xy { assert(aout * E24() * E6() <= (cur - next) * l); }
        // fee
        lemma_cdiv(ain * fee, E12());
        assert(ain * fee >= 0) by (nonlinear_arith) requires ain >= 0, fee >= 0;
        if by_in {
            assert(ain * fee <= (amt - ain) * E12()) by (nonlinear_arith) requires ain <= aaf, aaf * E12() <= amt * (E12() - fee), ain >= 0, fee >= 0, aaf <= amt, E12() > 0;
            lemma_cdiv_le(ain * fee, E12(), amt - ain);
        }
        assert((cur >= tgt ==> tgt <= next <= cur) && (cur < tgt ==> cur <= next <= tgt));
        assert(feeamt >= 0);
        assert((by_in ==> ain + feeamt <= amt) && (!by_in ==> aout <= amt));
        assert(cur >= tgt ==> ain * next * cur >= E24() * ((cur - next) * l / E6()));
        assert(cur < tgt ==> ain * E24() * E6() >= (next - cur) * l);
        assert(cur >= tgt ==> aout * E24() * E6() <= (cur - next) * l);
        assert(cur < tgt ==> aout * next * cur <= E24() * ((next - cur) * l / E6()));
        assert(feeamt * E12() >= ain * fee);
    }
}
pub proof fn lemma_min_price_sq(p: int)
    requires p >= 15258932000000000000
    ensures p * p >= E24()
{ assert(p * p >= 15258932000000000000 * 15258932000000000000) by (nonlinear_arith) requires p >= 15258932000000000000; }
} // verus!
} // mod vmath
