// Fee growth arithmetic (A07, A08): accumulators are numbers modulo 2^128.
pub mod vfee {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use crate::vmath::*;
verus! {
pub open spec fn W() -> int { 0xffffffffffffffffffffffffffffffffu128 + 1 }
pub open spec fn wadd(a: int, b: int) -> int { let s = a + b; if s >= W() { s - W() } else { s } }
pub open spec fn wsub(a: int, b: int) -> int { let s = a - b; if s < 0 { s + W() } else { s } }
pub open spec fn w128(a: int) -> bool { 0 <= a < W() }
/// growth credited per unit of liquidity
pub open spec fn growth_of(fee: int, l: int) -> int { fee * E34() / l }
/// fee owed to liquidity l for growth g
pub open spec fn fee_of(g: int, l: int) -> int { g * l / E34() }
/// growth below/above the range as recorded, and inside it
pub open spec fn fg_below(lower: int, lo: int, cur: int, g: int) -> int { if cur >= lower { lo } else { wsub(g, lo) } }
pub open spec fn fg_above(upper: int, uo: int, cur: int, g: int) -> int { if cur < upper { uo } else { wsub(g, uo) } }
pub open spec fn fg_inside(lower: int, lo: int, upper: int, uo: int, cur: int, g: int) -> int {
    wsub(wsub(g, fg_below(lower, lo, cur, g)), fg_above(upper, uo, cur, g))
}

// ---- A08 ----
/// growth collected while the current tick is inside the range is added exactly; outside, nothing changes
pub proof fn lemma_fg_collect(lower: int, lo: int, upper: int, uo: int, cur: int, g: int, d: int)
    requires w128(lo), w128(uo), w128(g), w128(d), lower < upper
    ensures
        lower <= cur < upper ==> fg_inside(lower, lo, upper, uo, cur, wadd(g, d)) == wadd(fg_inside(lower, lo, upper, uo, cur, g), d),
        !(lower <= cur < upper) ==> fg_inside(lower, lo, upper, uo, cur, wadd(g, d)) == fg_inside(lower, lo, upper, uo, cur, g),
{}
/// crossing a boundary tick (its outside growth flips while the current tick moves to its other side) changes nothing inside
pub proof fn lemma_fg_cross_lower(lower: int, lo: int, upper: int, uo: int, cur: int, cur2: int, g: int)
    requires w128(lo), w128(uo), w128(g), lower < upper, (cur >= lower) != (cur2 >= lower), (cur < upper) == (cur2 < upper)
    ensures fg_inside(lower, wsub(g, lo), upper, uo, cur2, g) == fg_inside(lower, lo, upper, uo, cur, g)
{}
pub proof fn lemma_fg_cross_upper(lower: int, lo: int, upper: int, uo: int, cur: int, cur2: int, g: int)
    requires w128(lo), w128(uo), w128(g), lower < upper, (cur < upper) != (cur2 < upper), (cur >= lower) == (cur2 >= lower)
    ensures fg_inside(lower, lo, upper, wsub(g, uo), cur2, g) == fg_inside(lower, lo, upper, uo, cur, g)
{}
/// moving the current tick without crossing either boundary changes nothing inside
pub proof fn lemma_fg_move(lower: int, lo: int, upper: int, uo: int, cur: int, cur2: int, g: int)
    requires (cur < upper) == (cur2 < upper), (cur >= lower) == (cur2 >= lower)
    ensures fg_inside(lower, lo, upper, uo, cur2, g) == fg_inside(lower, lo, upper, uo, cur, g)
{}
/// the difference a position is credited with is the growth since its snapshot, whatever the wrap-arounds
pub proof fn lemma_fg_diff(a: int, d: int)
    requires w128(a), w128(d) ensures wsub(wadd(a, d), a) == d, wadd(wsub(a, d), d) == a
{}

// ---- A07 ----
pub open spec fn seq_sum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { seq_sum(s.drop_last()) + s.last() } }
pub open spec fn seq_fees(s: Seq<int>, g: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { seq_fees(s.drop_last(), g) + fee_of(g, s.last()) } }
/// however the liquidity is split into positions, together they can claim at most the fee that was credited
pub proof fn lemma_claims_bounded(s: Seq<int>, g: int)
    requires g >= 0, forall|i: int| 0 <= i < s.len() ==> s[i] >= 0
    ensures seq_sum(s) >= 0, seq_fees(s, g) * E34() <= g * seq_sum(s)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]);
        lemma_claims_bounded(t, g);
        let l = s.last();
        assert(g * l >= 0) by (nonlinear_arith) requires g >= 0, l >= 0;
        lemma_fundamental_div_mod(g * l, E34());
        lemma_mod_pos_bound(g * l, E34());
        assert(g * seq_sum(s) == g * seq_sum(t) + g * l) by (nonlinear_arith) requires seq_sum(s) == seq_sum(t) + l;
        assert((seq_fees(t, g) + fee_of(g, l)) * E34() == seq_fees(t, g) * E34() + E34() * fee_of(g, l)) by (nonlinear_arith);
    } else {
        assert(g * seq_sum(s) == 0) by (nonlinear_arith) requires seq_sum(s) == 0;
    }
}
pub proof fn lemma_claims_le_fee(s: Seq<int>, fee: int)
    requires fee >= 0, forall|i: int| 0 <= i < s.len() ==> s[i] >= 0, seq_sum(s) > 0
    ensures seq_fees(s, growth_of(fee, seq_sum(s))) <= fee
{
    let l = seq_sum(s);
    let g = growth_of(fee, l);
    assert(fee * E34() >= 0) by (nonlinear_arith) requires fee >= 0, E34() > 0;
    lemma_fundamental_div_mod(fee * E34(), l);
    lemma_mod_pos_bound(fee * E34(), l);
    lemma_div_pos_is_pos(fee * E34(), l);
    lemma_claims_bounded(s, g);
    assert(g * l <= fee * E34()) by (nonlinear_arith) requires fee * E34() == l * g + (fee * E34()) % l, (fee * E34()) % l >= 0;
    assert(seq_fees(s, g) <= fee) by (nonlinear_arith) requires seq_fees(s, g) * E34() <= fee * E34(), E34() > 0;
}
} // verus!
} // mod vfee
