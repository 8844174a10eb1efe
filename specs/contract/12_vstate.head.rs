// Storage keys (A16) and the tick bitmap (A10), position lists (A11).
pub mod vstate {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power2::*;
use vstd::bits::*;
use crate::prelude::*;
use crate::{FeeTier, Pool, PoolKey, Position, Tick};
verus! {
pub open spec fn fkey(t: FeeTier) -> Seq<u8> { be(t.fee.0 as int, 8) + be(t.tick_spacing as int, 2) }
pub open spec fn pkey(k: PoolKey) -> Seq<u8> { lp(k.token_x@) + lp(k.token_y@) + lp(fkey(k.fee_tier)) }
pub open spec fn tkey(k: PoolKey, i: i32) -> Seq<u8> { pkey(k) + be(u32_of(i), 4) }
pub open spec fn poskey(a: Seq<u8>, i: int) -> Seq<u8> { a + be(i, 4) }
pub open spec fn bkey(c: int, k: PoolKey) -> Seq<u8> { be(c, 2) + pkey(k) }
/// a pool key whose token names fit the length prefix (longer ones make key() panic)
pub open spec fn pk_ok(k: PoolKey) -> bool { k.token_x@.len() < 0x10000 && k.token_y@.len() < 0x10000 }

pub proof fn lemma_be_len(n: int, k: nat) ensures be(n, k).len() == k decreases k { if k > 0 { lemma_be_len(n / 256, (k - 1) as nat); } }
pub open spec fn pow256(k: nat) -> int decreases k { if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) } }
pub proof fn lemma_be_inj(a: int, b: int, k: nat)
    requires 0 <= a < pow256(k), 0 <= b < pow256(k), be(a, k) == be(b, k)
    ensures a == b
    decreases k
{
    if k > 0 {
        let p = be(a / 256, (k - 1) as nat); let q = be(b / 256, (k - 1) as nat);
        assert(p =~= be(a, k).drop_last());
        assert(q =~= be(b, k).drop_last());
        assert(be(a, k).last() == be(b, k).last());
        assert(be(a, k).last() == (a % 256) as u8 && be(b, k).last() == (b % 256) as u8);
        assert(a % 256 == b % 256);
        assert(a / 256 < pow256((k - 1) as nat) && b / 256 < pow256((k - 1) as nat)) by { lemma_div_lt(a, pow256((k - 1) as nat)); lemma_div_lt(b, pow256((k - 1) as nat)); }
        lemma_be_inj(a / 256, b / 256, (k - 1) as nat);
    }
}
pub proof fn lemma_div_lt(a: int, p: int) requires 0 <= a < 256 * p ensures 0 <= a / 256 < p { assert(a / 256 < p) by (nonlinear_arith) requires 0 <= a < 256 * p; }
pub proof fn lemma_pow256() ensures pow256(2) == 0x10000, pow256(4) == 0x100000000, pow256(8) == 0x10000000000000000
{ assert(pow256(2) == 0x10000 && pow256(4) == 0x100000000 && pow256(8) == 0x10000000000000000) by (compute); }
pub proof fn lemma_u32_of(a: i32, b: i32) ensures 0 <= u32_of(a) < 0x100000000, u32_of(a) == u32_of(b) ==> a == b {}
/// equal concatenations with equally long heads have equal parts
pub proof fn lemma_cat(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>)
    requires a + b == c + d, a.len() == c.len()
    ensures a == c, b == d
{
    let s = a + b; let t = c + d;
    assert(s.subrange(0, a.len() as int) =~= a);
    assert(t.subrange(0, a.len() as int) =~= c);
    assert(s.subrange(a.len() as int, s.len() as int) =~= b);
    assert(t.subrange(a.len() as int, t.len() as int) =~= d);
}
/// equal concatenations with equally long tails have equal parts
pub proof fn lemma_cat_tail(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>)
    requires a + b == c + d, b.len() == d.len()
    ensures a == c, b == d
{
    assert((a + b).len() == a.len() + b.len() && (c + d).len() == c.len() + d.len());
    lemma_cat(a, b, c, d);
}
pub proof fn lemma_lp(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>)
    requires lp(a) + b == lp(c) + d, a.len() < 0x10000, c.len() < 0x10000
    ensures a == c, b == d
{
    lemma_be_len(a.len() as int, 2); lemma_be_len(c.len() as int, 2);
    assert(lp(a) + b =~= be(a.len() as int, 2) + (a + b));
    assert(lp(c) + d =~= be(c.len() as int, 2) + (c + d));
    lemma_cat(be(a.len() as int, 2), a + b, be(c.len() as int, 2), c + d);
    lemma_pow256();
    lemma_be_inj(a.len() as int, c.len() as int, 2);
    lemma_cat(a, b, c, d);
}
pub proof fn lemma_fkey(a: FeeTier, b: FeeTier) requires fkey(a) == fkey(b) ensures a == b
{
    lemma_be_len(a.fee.0 as int, 8); lemma_be_len(b.fee.0 as int, 8);
    lemma_cat(be(a.fee.0 as int, 8), be(a.tick_spacing as int, 2), be(b.fee.0 as int, 8), be(b.tick_spacing as int, 2));
    lemma_pow256();
    lemma_be_inj(a.fee.0 as int, b.fee.0 as int, 8);
    lemma_be_inj(a.tick_spacing as int, b.tick_spacing as int, 2);
}
pub proof fn lemma_fkey_len(a: FeeTier) ensures fkey(a).len() == 10 { lemma_be_len(a.fee.0 as int, 8); lemma_be_len(a.tick_spacing as int, 2); }
/// A16: different pools never share a storage key
pub proof fn lemma_pkey_inj(a: PoolKey, b: PoolKey)
    requires pk_ok(a), pk_ok(b), pkey(a) == pkey(b)
    ensures a == b
{
    lemma_pkey_parts(a, b, Seq::<u8>::empty(), Seq::<u8>::empty());
}
pub proof fn lemma_pkey_parts(a: PoolKey, b: PoolKey, s: Seq<u8>, t: Seq<u8>)
    requires pk_ok(a), pk_ok(b), pkey(a) + s == pkey(b) + t
    ensures a == b, s == t
{
    assert(pkey(a) + s =~= lp(a.token_x@) + (lp(a.token_y@) + (lp(fkey(a.fee_tier)) + s)));
    assert(pkey(b) + t =~= lp(b.token_x@) + (lp(b.token_y@) + (lp(fkey(b.fee_tier)) + t)));
    lemma_lp(a.token_x@, lp(a.token_y@) + (lp(fkey(a.fee_tier)) + s), b.token_x@, lp(b.token_y@) + (lp(fkey(b.fee_tier)) + t));
    lemma_lp(a.token_y@, lp(fkey(a.fee_tier)) + s, b.token_y@, lp(fkey(b.fee_tier)) + t);
    lemma_fkey_len(a.fee_tier); lemma_fkey_len(b.fee_tier);
    lemma_lp(fkey(a.fee_tier), s, fkey(b.fee_tier), t);
    lemma_fkey(a.fee_tier, b.fee_tier);
    string_ext(a.token_x, b.token_x);
    string_ext(a.token_y, b.token_y);
}
pub proof fn lemma_tkey_inj(a: PoolKey, i: i32, b: PoolKey, j: i32)
    requires pk_ok(a), pk_ok(b), tkey(a, i) == tkey(b, j)
    ensures a == b, i == j
{
    lemma_pkey_parts(a, b, be(u32_of(i), 4), be(u32_of(j), 4));
    lemma_pow256();
    lemma_u32_of(i, j); lemma_u32_of(j, i);
    lemma_be_inj(u32_of(i), u32_of(j), 4);
}
pub proof fn lemma_bkey_inj(c: int, a: PoolKey, d: int, b: PoolKey)
    requires pk_ok(a), pk_ok(b), 0 <= c < 0x10000, 0 <= d < 0x10000, bkey(c, a) == bkey(d, b)
    ensures a == b, c == d
{
    lemma_be_len(c, 2); lemma_be_len(d, 2);
    lemma_cat(be(c, 2), pkey(a), be(d, 2), pkey(b));
    lemma_pow256();
    lemma_be_inj(c, d, 2);
    lemma_pkey_inj(a, b);
}
pub proof fn lemma_poskey_inj(a: Seq<u8>, i: int, b: Seq<u8>, j: int)
    requires 0 <= i < 0x100000000, 0 <= j < 0x100000000, poskey(a, i) == poskey(b, j)
    ensures a == b, i == j
{
    lemma_be_len(i, 4); lemma_be_len(j, 4);
    lemma_cat_tail(a, be(i, 4), b, be(j, 4));
    lemma_pow256();
    lemma_be_inj(i, j, 4);
}

pub proof fn lemma_seq_total(a: Seq<u8>, b: Seq<u8>)
    ensures a == b || seq_lt(a, b) || seq_lt(b, a), !(seq_lt(a, b) && seq_lt(b, a)), seq_lt(a, b) ==> a != b
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { assert(a =~= b); } }
    else if b.len() == 0 {}
    else {
        let a1 = a.subrange(1, a.len() as int); let b1 = b.subrange(1, b.len() as int);
        lemma_seq_total(a1, b1);
        if a[0] == b[0] && a1 == b1 { assert(a =~= seq![a[0]] + a1); assert(b =~= seq![b[0]] + b1); }
    }
}
pub open spec fn cat_lp(s: Seq<&[u8]>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::<u8>::empty() } else { cat_lp(s.drop_last()) + lp(s.last()@) } }
pub proof fn lemma_cat3(s: Seq<&[u8]>) requires s.len() == 3 ensures cat_lp(s) == lp(s[0]@) + lp(s[1]@) + lp(s[2]@)
{
    let s2 = s.drop_last(); let s1 = s2.drop_last(); let s0 = s1.drop_last();
    assert(s0.len() == 0);
    assert(s2.last() == s[1] && s1.last() == s[0]);
    assert(cat_lp(s0) == Seq::<u8>::empty());
    assert(cat_lp(s1) =~= lp(s[0]@));
    assert(cat_lp(s2) =~= lp(s[0]@) + lp(s[1]@));
}
// ---- position lists: an account's positions are the entries 0..plen of its list ----
pub open spec fn plen_of(s: SV, a: Seq<u8>) -> int { if s.plen.contains_key(a) { s.plen[a] as int } else { 0 } }
pub open spec fn pos_added(s: SV, t: SV, a: Seq<u8>, p: Position) -> bool {
    let n = plen_of(s, a);
    &&& n + 1 < 0x100000000
    &&& t == (SV { positions: s.positions.insert(poskey(a, n), p), plen: s.plen.insert(a, (n + 1) as u32), ..s })
}
/// the last entry takes the place of the removed one
pub open spec fn pos_removed(s: SV, t: SV, a: Seq<u8>, i: int, p: Position) -> bool {
    let n = plen_of(s, a) - 1;
    &&& n >= 0 && s.positions.contains_key(poskey(a, i)) && p == s.positions[poskey(a, i)]
    &&& t.plen == s.plen.insert(a, n as u32)
    &&& t == (SV { positions: t.positions, plen: t.plen, ..s })
    &&& if i < n { s.positions.contains_key(poskey(a, n)) && t.positions == s.positions.remove(poskey(a, n)).insert(poskey(a, i), s.positions[poskey(a, n)]) }
        else { t.positions == s.positions.remove(poskey(a, i)) }
}
pub open spec fn chunk_of(s: SV, k: PoolKey, c: int) -> u64 { if s.bitmap.contains_key(bkey(c, k)) { s.bitmap[bkey(c, k)] } else { 0 } }
/// exactly one bit of this pool's map changes
pub open spec fn bits_flipped(s: SV, t: SV, k: PoolKey, n: int) -> bool {
    &&& t == (SV { bitmap: t.bitmap, ..s })
    &&& t.bitmap == s.bitmap.insert(bkey(n / 64, k), t.bitmap[bkey(n / 64, k)])
    &&& forall|i: int| 0 <= i < 64 ==> #[trigger] bit_of(t.bitmap[bkey(n / 64, k)], i) == (if i == n % 64 { !bit_of(chunk_of(s, k, n / 64), i) } else { bit_of(chunk_of(s, k, n / 64), i) })
}
// ---- pages of an account's position list: at most 100 items from the offset on ----
pub open spec fn page_from(offset: Option<u32>) -> int { match offset { Some(o) => o as int, None => 0 } }
pub open spec fn page_limit(limit: Option<u32>) -> int { match limit { Some(l) => imin(l as int, 100), None => 100 } }
pub open spec fn page_len(s: SV, a: Seq<u8>, limit: Option<u32>, offset: Option<u32>) -> int {
    imax(0, imin(plen_of(s, a) - page_from(offset), page_limit(limit)))
}
pub open spec fn pos_is(s: SV, k: Seq<u8>, p: Position) -> bool { s.positions.contains_key(k) && p == s.positions[k] }
pub open spec fn positions_are(s: SV, a: Seq<u8>, from: int, r: Seq<Position>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> pos_is(s, poskey(a, from + i), #[trigger] r[i])
}
pub proof fn lemma_positions_push(s: SV, a: Seq<u8>, from: int, r0: Seq<Position>, r: Seq<Position>)
    requires positions_are(s, a, from, r0), r.len() == r0.len() + 1, r =~= r0.push(r.last()), s.positions.contains_key(poskey(a, from + r0.len())), r.last() == s.positions[poskey(a, from + r0.len())]
    ensures positions_are(s, a, from, r)
{ assert forall|i: int| 0 <= i < r.len() implies pos_is(s, poskey(a, from + i), #[trigger] r[i]) by { if i < r0.len() { assert(r0[i] == r[i]); } else { assert(i == r0.len()); } } }
pub open spec fn pos_seq(r: Seq<Position>) -> Seq<Position> { r }
pub open spec fn keys_from(v: Seq<Vec<u8>>, a: Seq<u8>, from: int) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == poskey(a, from + i) }
// ---- creating and removing ticks: the tick record and its bit change together ----
pub open spec fn tick_created(s: SV, t: SV, k: PoolKey, i: i32, now: u64, tk: Tick) -> bool {
    &&& valid_tick(i as int, k.fee_tier.tick_spacing as int) && s.pools.contains_key(pkey(k)) && !s.ticks.contains_key(tkey(k, i))
    &&& tk == tick_new(i, s.pools[pkey(k)], now)
    &&& !bit_set(s, k, i as int, k.fee_tier.tick_spacing as int)
    &&& t == (SV { ticks: s.ticks.insert(tkey(k, i), tk), bitmap: t.bitmap, ..s })
    &&& bits_flipped(s, SV { ticks: s.ticks, ..t }, k, bidx(i as int, k.fee_tier.tick_spacing as int))
}
pub open spec fn tick_removed(s: SV, t: SV, k: PoolKey, i: i32) -> bool {
    &&& s.ticks.contains_key(tkey(k, i)) && bit_set(s, k, i as int, k.fee_tier.tick_spacing as int)
    &&& t == (SV { ticks: s.ticks.remove(tkey(k, i)), bitmap: t.bitmap, ..s })
    &&& bits_flipped(s, SV { ticks: s.ticks, ..t }, k, bidx(i as int, k.fee_tier.tick_spacing as int))
}
} // verus!
} // mod vstate
