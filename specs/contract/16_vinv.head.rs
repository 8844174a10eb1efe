// The invariant of every reachable state (A08-A11): what the contracts of the message handlers preserve.
pub mod vinv {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use crate::prelude::*;
use crate::{FeeTier, Pool, PoolKey, Position, Tick, UpdatePoolTick, SwapResult, Config};
use crate::interface::{CalculateSwapResult, SwapHop};
use crate::math::types::sqrt_price::SqrtPrice;
use crate::math::types::fee_growth::FeeGrowth;
use crate::math::types::token_amount::TokenAmount;
use crate::msg::ExecuteMsg;
use crate::entrypoints::common::TimeStampExt;
verus! {
// ---- sums over all positions ----
pub open spec fn psum(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> int) -> int
    decreases m.dom().len()
    via psum_dec
{
    if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); f(m[k]) + psum(m.remove(k), f) }
}
#[via_fn]
proof fn psum_dec(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> int) { 
  if m.dom().len() != 0 { let k = m.dom().choose(); assert(m.dom().contains(k)); assert(m.remove(k).dom() =~= m.dom().remove(k)); }
}
pub proof fn lemma_psum_remove(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> int, k: Seq<u8>)
    requires m.contains_key(k)
    ensures psum(m, f) == f(m[k]) + psum(m.remove(k), f)
    decreases m.dom().len()
{
    let j = m.dom().choose();
    assert(m.dom().contains(k));
    assert(m.dom().len() > 0) by { if m.dom().len() == 0 { assert(m.dom() =~= Set::<Seq<u8>>::empty()); } }
    assert(m.dom().contains(j));
    assert(m.remove(j).dom() =~= m.dom().remove(j));
    assert(m.remove(k).dom() =~= m.dom().remove(k));
    if j != k {
        lemma_psum_remove(m.remove(j), f, k);
        lemma_psum_remove(m.remove(k), f, j);
        assert(m.remove(j).remove(k) =~= m.remove(k).remove(j));
    }
}
pub proof fn lemma_psum_insert(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> int, k: Seq<u8>, p: Position)
    ensures psum(m.insert(k, p), f) == f(p) + psum(m, f) - (if m.contains_key(k) { f(m[k]) } else { 0 })
{
    let n = m.insert(k, p);
    assert(n.dom() =~= m.dom().insert(k));
    lemma_psum_remove(n, f, k);
    if m.contains_key(k) { lemma_psum_remove(m, f, k); assert(n.remove(k) =~= m.remove(k)); } else { assert(n.remove(k) =~= m); }
}
/// h = f + g pointwise
pub proof fn lemma_psum_add(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> int, g: spec_fn(Position) -> int, h: spec_fn(Position) -> int)
    requires forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> h(m[k]) == f(m[k]) + g(m[k])
    ensures psum(m, h) == psum(m, f) + psum(m, g)
    decreases m.dom().len()
{
    if m.dom().len() > 0 {
        let k = m.dom().choose();
        assert(m.contains_key(k));
        let n = m.remove(k);
        assert(n.dom() =~= m.dom().remove(k));
        assert forall|j: Seq<u8>| #[trigger] n.contains_key(j) implies h(n[j]) == f(n[j]) + g(n[j]) by { assert(m.contains_key(j)); }
        lemma_psum_add(n, f, g, h);
    }
}
pub proof fn lemma_psum_eq(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> int, g: spec_fn(Position) -> int)
    requires forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> f(m[k]) == g(m[k])
    ensures psum(m, f) == psum(m, g)
    decreases m.dom().len()
{
    if m.dom().len() > 0 {
        let k = m.dom().choose();
        assert(m.contains_key(k));
        let n = m.remove(k);
        assert(n.dom() =~= m.dom().remove(k));
        assert forall|j: Seq<u8>| #[trigger] n.contains_key(j) implies f(n[j]) == g(n[j]) by { assert(m.contains_key(j)); }
        lemma_psum_eq(n, f, g);
    }
}
pub proof fn lemma_psum_pos(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> int)
    requires forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> f(m[k]) >= 0
    ensures psum(m, f) >= 0, forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> psum(m, f) >= f(m[k]), psum(m, f) > 0 ==> exists|k: Seq<u8>| #[trigger] m.contains_key(k) && f(m[k]) > 0
    decreases m.dom().len()
{
    if m.dom().len() > 0 {
        let k = m.dom().choose();
        assert(m.contains_key(k));
        let n = m.remove(k);
        assert(n.dom() =~= m.dom().remove(k));
        assert forall|j: Seq<u8>| #[trigger] n.contains_key(j) implies f(n[j]) >= 0 by { assert(m.contains_key(j)); }
        lemma_psum_pos(n, f);
        assert forall|j: Seq<u8>| #[trigger] m.contains_key(j) implies psum(m, f) >= f(m[j]) by { if j != k { assert(n.contains_key(j)); } }
        if psum(m, f) > 0 && f(m[k]) == 0 { let j = choose|j: Seq<u8>| #[trigger] n.contains_key(j) && f(n[j]) > 0; assert(m.contains_key(j)); }
    } else {
        assert forall|j: Seq<u8>| #[trigger] m.contains_key(j) implies false by { assert(m.dom().contains(j)); assert(m.dom() =~= Set::<Seq<u8>>::empty()); }
    }
}

pub proof fn lemma_psum_zero(m: Map<Seq<u8>, Position>, f: spec_fn(Position) -> int)
    requires forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> f(m[k]) == 0
    ensures psum(m, f) == 0
{ lemma_psum_add(m, f, f, f); }
/// what a position contributes to a tick's gross and net liquidity and to the active liquidity at tick c
pub open spec fn gw(k: PoolKey, i: int) -> spec_fn(Position) -> int { |p: Position| if p.pool_key == k && (p.lower_tick_index == i || p.upper_tick_index == i) { p.liquidity.0 as int } else { 0 } }
pub open spec fn nw(k: PoolKey, i: int) -> spec_fn(Position) -> int { |p: Position| if p.pool_key == k && p.lower_tick_index == i { p.liquidity.0 as int } else if p.pool_key == k && p.upper_tick_index == i { -(p.liquidity.0 as int) } else { 0 } }
pub open spec fn aw(k: PoolKey, c: int) -> spec_fn(Position) -> int { |p: Position| if p.pool_key == k && p.lower_tick_index <= c < p.upper_tick_index { p.liquidity.0 as int } else { 0 } }
pub open spec fn gross(s: SV, k: PoolKey, i: int) -> int { psum(s.positions, gw(k, i)) }
pub open spec fn net(s: SV, k: PoolKey, i: int) -> int { psum(s.positions, nw(k, i)) }
pub open spec fn act(s: SV, k: PoolKey, c: int) -> int { psum(s.positions, aw(k, c)) }
// ---- the invariant ----
pub open spec fn pos_wf(s: SV, p: Position) -> bool {
    let sp = p.pool_key.fee_tier.tick_spacing as int;
    &&& pk_ok(p.pool_key) && s.pools.contains_key(pkey(p.pool_key)) && p.liquidity.0 > 0
    &&& p.lower_tick_index < p.upper_tick_index && valid_tick(p.lower_tick_index as int, sp) && valid_tick(p.upper_tick_index as int, sp)
}
pub open spec fn inv_pos(s: SV) -> bool { forall|key: Seq<u8>| #[trigger] s.positions.contains_key(key) ==> pos_wf(s, s.positions[key]) }
/// an account's positions are exactly the entries 0..plen of its list
pub open spec fn inv_list(s: SV) -> bool { forall|a: Seq<u8>, i: int| 0 <= i < 0x100000000 ==> (s.positions.contains_key(#[trigger] poskey(a, i)) <==> i < plen_of(s, a)) }
/// a tick exists exactly while some position is bounded by it, and records their gross and net liquidity
pub open spec fn tick_inv(s: SV, k: PoolKey, i: i32) -> bool {
    let t = s.ticks[tkey(k, i)];
    &&& s.ticks.contains_key(tkey(k, i)) <==> gross(s, k, i as int) > 0
    &&& s.ticks.contains_key(tkey(k, i)) ==> {
        &&& s.pools.contains_key(pkey(k)) && valid_tick(i as int, k.fee_tier.tick_spacing as int) && t.index == i
        &&& t.liquidity_gross.0 == gross(s, k, i as int) && tick_net(t) == net(s, k, i as int)
        &&& t.liquidity_gross.0 < max_liq_per_tick(k.fee_tier.tick_spacing as int)
    }
}
pub open spec fn inv_tick(s: SV) -> bool { forall|k: PoolKey, i: i32| pk_ok(k) ==> #[trigger] tick_inv(s, k, i) }
/// the bitmap marks exactly the existing ticks
pub open spec fn bit_inv(s: SV, k: PoolKey, i: i32) -> bool {
    valid_tick(i as int, k.fee_tier.tick_spacing as int) ==> (bit_set(s, k, i as int, k.fee_tier.tick_spacing as int) <==> s.ticks.contains_key(tkey(k, i)))
}
pub open spec fn inv_bit(s: SV) -> bool { forall|k: PoolKey, i: i32| pk_ok(k) ==> #[trigger] bit_inv(s, k, i) }
/// the price belongs to the current tick, and the active liquidity is that of the positions in range
pub open spec fn pool_inv(s: SV, k: PoolKey) -> bool {
    let p = s.pools[pkey(k)];
    s.pools.contains_key(pkey(k)) ==> pool_ok(p, k.fee_tier.tick_spacing as int) && p.liquidity.0 == act(s, k, p.current_tick_index as int)
}
pub open spec fn inv_pool(s: SV) -> bool { forall|k: PoolKey| pk_ok(k) ==> #[trigger] pool_inv(s, k) }
pub open spec fn inv(s: SV) -> bool { inv_pos(s) && inv_list(s) && inv_tick(s) && inv_bit(s) && inv_pool(s) }

// ---- facts about the sums ----
pub proof fn lemma_gross(s: SV, k: PoolKey, i: int)
    ensures gross(s, k, i) >= 0, gross(s, k, i) == 0 ==> net(s, k, i) == 0,
        forall|key: Seq<u8>| #[trigger] s.positions.contains_key(key) ==> gross(s, k, i) >= gw(k, i)(s.positions[key])
{
    lemma_psum_pos(s.positions, gw(k, i));
    if gross(s, k, i) == 0 {
        assert forall|key: Seq<u8>| #[trigger] s.positions.contains_key(key) implies nw(k, i)(s.positions[key]) == 0 by {}
        lemma_psum_zero(s.positions, nw(k, i));
    }
}
/// the endpoints of a position are existing, marked ticks
pub proof fn lemma_ends(s: SV, key: Seq<u8>)
    requires inv(s), s.positions.contains_key(key)
    ensures ({ let p = s.positions[key]; let k = p.pool_key; let sp = k.fee_tier.tick_spacing as int;
        &&& pk_ok(k) && p.liquidity.0 > 0 && s.pools.contains_key(pkey(k))
        &&& s.ticks.contains_key(tkey(k, p.lower_tick_index)) && s.ticks.contains_key(tkey(k, p.upper_tick_index))
        &&& bit_set(s, k, p.lower_tick_index as int, sp) && bit_set(s, k, p.upper_tick_index as int, sp)
        &&& p.lower_tick_index as int % sp == 0 && p.upper_tick_index as int % sp == 0 && sp > 0 })
{
    let p = s.positions[key]; let k = p.pool_key;
    lemma_gross(s, k, p.lower_tick_index as int); lemma_gross(s, k, p.upper_tick_index as int);
    assert(pos_wf(s, p));
    assert(tick_inv(s, k, p.lower_tick_index) && tick_inv(s, k, p.upper_tick_index));
    assert(bit_inv(s, k, p.lower_tick_index) && bit_inv(s, k, p.upper_tick_index));
}
/// no marked tick in (c, d]: the same positions are in range at c and at d
pub open spec fn no_marks(s: SV, k: PoolKey, c: int, d: int) -> bool { forall|j: int| c < j <= d && j % (k.fee_tier.tick_spacing as int) == 0 ==> !#[trigger] bit_set(s, k, j, k.fee_tier.tick_spacing as int) }
pub proof fn lemma_act_same(s: SV, k: PoolKey, c: int, d: int)
    requires inv(s), c <= d, no_marks(s, k, c, d)
    ensures act(s, k, c) == act(s, k, d)
{
    assert forall|key: Seq<u8>| #[trigger] s.positions.contains_key(key) implies aw(k, c)(s.positions[key]) == aw(k, d)(s.positions[key]) by { lemma_ends(s, key); }
    lemma_psum_eq(s.positions, aw(k, c), aw(k, d));
}
/// from just below j to j: the net liquidity of j is added
pub proof fn lemma_act_cross(s: SV, k: PoolKey, c: int, j: int)
    requires inv(s), c < j, no_marks(s, k, c, j - 1)
    ensures act(s, k, j) == act(s, k, c) + net(s, k, j)
{
    assert forall|key: Seq<u8>| #[trigger] s.positions.contains_key(key) implies aw(k, j)(s.positions[key]) == aw(k, c)(s.positions[key]) + nw(k, j)(s.positions[key]) by { lemma_ends(s, key); assert(pos_wf(s, s.positions[key])); }
    lemma_psum_add(s.positions, aw(k, c), nw(k, j), aw(k, j));
}
// ---- swaps ----
/// a step never moves past an initialized tick without crossing it
pub open spec fn step_marks(a: SwArg, r: SwRec) -> bool {
    let c = r.pre.pool.current_tick_index as int; let d = r.post.pool.current_tick_index as int;
    if !r.crossed { if a.xy { d <= c && no_marks(a.s, a.k, d, c) } else { c <= d && no_marks(a.s, a.k, c, d) } }
    else {
        let j = r.lt->Some_0.0 as int;
        &&& r.lt is Some && r.tu0 == UpdatePoolTick::TickInitialized(a.s.ticks[tkey(a.k, r.lt->Some_0.0)]) && a.s.ticks.contains_key(tkey(a.k, r.lt->Some_0.0)) && bit_set(a.s, a.k, j, sw_sp(a)) && valid_tick(j, sw_sp(a))
        &&& if a.xy { d == j - sw_sp(a) && j <= c && no_marks(a.s, a.k, j, c) && no_marks(a.s, a.k, d, j - 1) } else { d == j && c < j && no_marks(a.s, a.k, c, j - 1) }
    }
}
pub proof fn lemma_aligned(j: int, x: int, sp: int) requires sp > 0, j % sp == 0, x % sp == 0, x - sp < j < x ensures false
{ lemma_bidx(j, sp); lemma_bidx(x, sp); let (p, q) = (j / sp, x / sp); lemma_mul_le(p, q, sp); lemma_mul_le(q - 1, p, sp); assert((q - 1) * sp == q * sp - sp) by (nonlinear_arith); }
pub proof fn lemma_step_marks(a: SwArg, r: SwRec)
    requires sw_step(a, r), pool_ok(r.pre.pool, sw_sp(a)), ticks_idx(a.s, a.k),
        if a.xy { a.limit.0 <= r.pre.pool.sqrt_price.0 && a.limit.0 <= MAXP() } else { r.pre.pool.sqrt_price.0 <= a.limit.0 && a.limit.0 >= MINP() }
    ensures step_marks(a, r)
{
    let (p, q, sp, next) = (r.pre.pool, r.post.pool, sw_sp(a), r.res.next_sqrt_price.0 as int);
    let c = p.current_tick_index as int; let d = q.current_tick_index as int;
    lemma_sw_step(a, r);
    lemma_sw_lim(a, p, r.lim.0 as int, r.lt);
    lemma_max_tick(sp);
    reveal(closer_ok);
    let (i, init) = match r.lt { Some(x) => x, None => choose|i: i32, init: bool| #[trigger] search_ok(a.s, a.k, c, sp, a.xy, i, init) && !before_limit(i as int, a.xy, a.limit.0 as int) };
    assert(search_ok(a.s, a.k, c, sp, a.xy, i, init));
    lemma_search(a.s, a.k, c, sp, a.xy, i, init);
    assert(r.mid.current_tick_index == p.current_tick_index);
    // nothing marked strictly between the current tick and the target
    if a.xy { assert(no_marks(a.s, a.k, i as int, c)); } else { assert(no_marks(a.s, a.k, c, i - 1)); if !init { assert(no_marks(a.s, a.k, c, i as int)); } }
    if r.tu0 is NoTick || r.lim.0 != next {
        lemma_cands(next);
        let t1 = tick1(next);
        lemma_tick_at(t1, next, sp);
        if a.xy {
            assert(tick_price(i as int) <= next);
            assert(i <= d <= c);
        } else {
            assert(next < tick_price(i as int));
            if d >= i { lemma_tp_le(i as int, t1); }
            assert(c <= d < i);
        }
    } else {
        lemma_mt_le(i as int, sp);
        if a.xy {
            lemma_sub_mod(i as int, sp);
            assert forall|j: int| i - sp < j <= i - 1 && j % sp == 0 implies !#[trigger] bit_set(a.s, a.k, j, sp) by { lemma_aligned(j, i as int, sp); }
        }
    }
}
/// what a crossed tick keeps
pub open spec fn tick_like(t: Tick, u: Tick) -> bool { t.index == u.index && t.sign == u.sign && t.liquidity_change == u.liquidity_change && t.liquidity_gross == u.liquidity_gross }
pub open spec fn written_like(a: SwArg, ts: Seq<Tick>) -> bool { forall|n: int| 0 <= n < ts.len() ==> a.s.ticks.contains_key(tkey(a.k, (#[trigger] ts[n]).index)) && tick_like(ts[n], a.s.ticks[tkey(a.k, ts[n].index)]) }
pub open spec fn sw_lq(a: SwArg, p: Pool) -> bool { p.liquidity.0 == act(a.s, a.k, p.current_tick_index as int) }
pub open spec fn sw_pre(a: SwArg, p: Pool) -> bool { if a.xy { a.limit.0 <= p.sqrt_price.0 && a.limit.0 <= MAXP() } else { p.sqrt_price.0 <= a.limit.0 && a.limit.0 >= MINP() } }
pub proof fn lemma_inv_idx(s: SV, k: PoolKey) requires inv(s), pk_ok(k) ensures ticks_idx(s, k)
{ assert forall|i: i32| s.ticks.contains_key(#[trigger] tkey(k, i)) implies s.ticks[tkey(k, i)].index == i by { assert(tick_inv(s, k, i)); } }
pub proof fn lemma_step_liq(a: SwArg, r: SwRec)
    requires inv(a.s), pk_ok(a.k), sw_step(a, r), pool_ok(r.pre.pool, sw_sp(a)), sw_pre(a, r.pre.pool), sw_lq(a, r.pre.pool), written_like(a, r.pre.ticks)
    ensures sw_lq(a, r.post.pool), written_like(a, r.post.ticks)
{
    lemma_inv_idx(a.s, a.k);
    lemma_step_marks(a, r);
    let c = r.pre.pool.current_tick_index as int; let d = r.post.pool.current_tick_index as int;
    assert(r.mid.liquidity == r.pre.pool.liquidity && r.mid.current_tick_index == r.pre.pool.current_tick_index);
    if !r.crossed {
        assert(r.post.pool.liquidity == r.pre.pool.liquidity);
        if a.xy { lemma_act_same(a.s, a.k, d, c); } else { lemma_act_same(a.s, a.k, c, d); }
    } else {
        let i = r.lt->Some_0.0; let j = i as int; let t = a.s.ticks[tkey(a.k, i)];
        assert(tick_inv(a.s, a.k, i));
        if a.xy { lemma_act_same(a.s, a.k, j, c); lemma_act_cross(a.s, a.k, d, j); } else { lemma_act_cross(a.s, a.k, c, j); }
        assert(r.post.pool.liquidity.0 == r.pre.pool.liquidity.0 + cross_delta(t, c));
        let ts = r.post.ticks;
        assert forall|n: int| 0 <= n < ts.len() implies a.s.ticks.contains_key(tkey(a.k, (#[trigger] ts[n]).index)) && tick_like(ts[n], a.s.ticks[tkey(a.k, ts[n].index)]) by { if n < r.pre.ticks.len() { assert(ts[n] == r.pre.ticks[n]); } }
    }
}
pub proof fn lemma_run_liq(a: SwArg, tr: Seq<SwRec>, st0: SwSt, st: SwSt)
    requires inv(a.s), pk_ok(a.k), sw_run(a, tr, st0, st), pool_ok(st0.pool, sw_sp(a)), sw_pre(a, st0.pool), sw_lq(a, st0.pool), st0.ticks.len() == 0
    ensures pool_ok(st.pool, sw_sp(a)), sw_pre(a, st.pool), sw_lq(a, st.pool), written_like(a, st.ticks)
    decreases tr.len()
{
    lemma_inv_idx(a.s, a.k);
    lemma_sw_dir(a, tr, st0, st);
    if tr.len() > 0 { lemma_run_liq(a, tr.drop_last(), st0, tr.last().pre); lemma_step_liq(a, tr.last()); }
}
pub open spec fn ticks_like(m: Map<Seq<u8>, Tick>, n: Map<Seq<u8>, Tick>) -> bool { forall|key: Seq<u8>| (#[trigger] n.contains_key(key) <==> m.contains_key(key)) && (m.contains_key(key) ==> tick_like(m[key], n[key])) }
pub proof fn lemma_written(a: SwArg, ts: Seq<Tick>)
    requires written_like(a, ts)
    ensures ticks_like(a.s.ticks, ticks_written(a.s.ticks, a.k, ts))
    decreases ts.len()
{
    if ts.len() > 0 {
        let us = ts.drop_last();
        assert forall|n: int| 0 <= n < us.len() implies a.s.ticks.contains_key(tkey(a.k, (#[trigger] us[n]).index)) && tick_like(us[n], a.s.ticks[tkey(a.k, us[n].index)]) by { assert(us[n] == ts[n]); }
        lemma_written(a, us);
        let l = ts[ts.len() - 1];
        assert(ts.last() == l);
        let (m, n) = (a.s.ticks, ticks_written(a.s.ticks, a.k, us));
        assert(ticks_written(a.s.ticks, a.k, ts) == n.insert(tkey(a.k, l.index), l));
        assert forall|key: Seq<u8>| (#[trigger] n.insert(tkey(a.k, l.index), l).contains_key(key) <==> m.contains_key(key)) && (m.contains_key(key) ==> tick_like(m[key], n.insert(tkey(a.k, l.index), l)[key])) by {
            assert(n.contains_key(key) <==> m.contains_key(key));
        }
    }
}
pub open spec fn same_dom<V>(m: Map<Seq<u8>, V>, n: Map<Seq<u8>, V>) -> bool { forall|key: Seq<u8>| #[trigger] n.contains_key(key) <==> m.contains_key(key) }
/// only what a swap may change has changed, and the pools it changed are consistent again
pub proof fn lemma_inv_swap_like(s: SV, t: SV, k: PoolKey)
    requires inv(s), pk_ok(k), s.pools.contains_key(pkey(k)), t == (SV { ticks: t.ticks, pools: s.pools.insert(pkey(k), t.pools[pkey(k)]), ..s }), ticks_sim(s.ticks, t.ticks),
        pool_ok(t.pools[pkey(k)], k.fee_tier.tick_spacing as int), t.pools[pkey(k)].liquidity.0 == act(s, k, t.pools[pkey(k)].current_tick_index as int)
    ensures inv(t)
{
    assert forall|key: Seq<u8>| #[trigger] t.positions.contains_key(key) implies pos_wf(t, t.positions[key]) by { assert(pos_wf(s, s.positions[key])); }
    assert forall|q: PoolKey, i: i32| pk_ok(q) implies #[trigger] tick_inv(t, q, i) by { assert(tick_inv(s, q, i)); assert(t.ticks.contains_key(tkey(q, i)) <==> s.ticks.contains_key(tkey(q, i))); assert(gross(t, q, i as int) == gross(s, q, i as int) && net(t, q, i as int) == net(s, q, i as int)); }
    assert forall|q: PoolKey, i: i32| pk_ok(q) implies #[trigger] bit_inv(t, q, i) by { assert(bit_inv(s, q, i)); assert(t.ticks.contains_key(tkey(q, i)) <==> s.ticks.contains_key(tkey(q, i))); assert(chunk_of(t, q, bidx(i as int, q.fee_tier.tick_spacing as int) / 64) == chunk_of(s, q, bidx(i as int, q.fee_tier.tick_spacing as int) / 64)); }
    assert forall|q: PoolKey| pk_ok(q) implies #[trigger] pool_inv(t, q) by {
        assert(pool_inv(s, q));
        if pkey(q) == pkey(k) { lemma_pkey_inj(q, k); } else { assert(t.pools.contains_key(pkey(q)) <==> s.pools.contains_key(pkey(q))); }
    }
    assert forall|b: Seq<u8>, i: int| 0 <= i < 0x100000000 implies (t.positions.contains_key(#[trigger] poskey(b, i)) <==> i < plen_of(t, b)) by { assert(s.positions.contains_key(poskey(b, i)) <==> i < plen_of(s, b)); }
}
pub proof fn lemma_inv_swap(a: SwArg, amount: int, r: CalculateSwapResult)
    requires inv(a.s), sw_ok(a, amount, r)
    ensures inv(sw_store(a.s, a.k, r))
{
    let tr = choose|tr: Seq<SwRec>| sw_done(a, amount, tr, r);
    let (st0, st) = (sw_start(a, amount), sw_end(r));
    assert(pool_inv(a.s, a.k));
    lemma_run_liq(a, tr, st0, st);
    lemma_written(a, r.ticks@);
    let t = sw_store(a.s, a.k, r);
    assert(t.pools[pkey(a.k)] == r.pool);
    lemma_inv_swap_like(a.s, t, a.k);
}
pub proof fn lemma_inv_route(hs: Seq<SwapHop>, tr: Seq<RtRec>, now: u64, sender: Seq<u8>, me: Seq<u8>, st0: RtSt, st: RtSt)
    requires inv(st0.s), rt_run(hs, tr, now, sender, me, st0, st)
    ensures inv(st.s)
    decreases hs.len()
{
    if hs.len() > 0 {
        let r = tr.last();
        lemma_inv_route(hs.drop_last(), tr.drop_last(), now, sender, me, st0, r.pre);
        lemma_inv_swap(rt_arg(r.pre.s, hs.last(), now), r.pre.amt, r.res);
    }
}
// ---- messages that leave positions, ticks and the bitmap alone ----
pub open spec fn same_core(p: Pool, q: Pool) -> bool { p.sqrt_price == q.sqrt_price && p.current_tick_index == q.current_tick_index && p.liquidity == q.liquidity }
pub proof fn lemma_inv_frame(s: SV, t: SV)
    requires inv(s), t == (SV { pools: t.pools, ops: t.ops, config: t.config, ..s }), forall|key: Seq<u8>| (#[trigger] t.pools.contains_key(key) <==> s.pools.contains_key(key)) && (s.pools.contains_key(key) ==> same_core(s.pools[key], t.pools[key]))
    ensures inv(t)
{
    assert forall|key: Seq<u8>| #[trigger] t.positions.contains_key(key) implies pos_wf(t, t.positions[key]) by { assert(pos_wf(s, s.positions[key])); }
    assert forall|q: PoolKey, i: i32| pk_ok(q) implies #[trigger] tick_inv(t, q, i) by { assert(tick_inv(s, q, i)); assert(gross(t, q, i as int) == gross(s, q, i as int) && net(t, q, i as int) == net(s, q, i as int)); }
    assert forall|q: PoolKey, i: i32| pk_ok(q) implies #[trigger] bit_inv(t, q, i) by { assert(bit_inv(s, q, i)); assert(chunk_of(t, q, bidx(i as int, q.fee_tier.tick_spacing as int) / 64) == chunk_of(s, q, bidx(i as int, q.fee_tier.tick_spacing as int) / 64)); }
    assert forall|q: PoolKey| pk_ok(q) implies #[trigger] pool_inv(t, q) by { assert(pool_inv(s, q)); assert(t.pools.contains_key(pkey(q)) <==> s.pools.contains_key(pkey(q))); }
    assert forall|b: Seq<u8>, i: int| 0 <= i < 0x100000000 implies (t.positions.contains_key(#[trigger] poskey(b, i)) <==> i < plen_of(t, b)) by { assert(s.positions.contains_key(poskey(b, i)) <==> i < plen_of(s, b)); }
}
pub proof fn lemma_new_pool_ok(p: Pool, tick: int, sp: int)
    requires valid_tick(tick, sp), price_in_tick(tick, sp, p.sqrt_price.0 as int), p.current_tick_index == tick
    ensures pool_ok(p, sp)
{
    lemma_max_tick(sp);
    lemma_price_range(tick);
    if tick + sp > MAXT() {
        let m = max_tick(sp);
        lemma_floor(MAXT(), sp);
        if tick < m { lemma_mod_multiples_basic(MAXT() / sp, sp); lemma_bidx(tick, sp); lemma_bidx(m, sp); lemma_mul_le(tick / sp + 1, m / sp, sp); lemma_mul_le(tick / sp, m / sp, sp); assert((tick / sp + 1) * sp == (tick / sp) * sp + sp) by (nonlinear_arith); }
        assert(tick == m);
    } else { lemma_price_range(tick + sp); }
}
pub proof fn lemma_inv_pool_created(s: SV, t: SV, now: u64, a: Seq<u8>, b: Seq<u8>, ft: FeeTier, price: SqrtPrice, tick: i32, k: PoolKey)
    requires inv(s), pool_created(s, t, now, a, b, ft, price, tick, k)
    ensures inv(t)
{
    let q0 = t.pools[pkey(k)];
    assert forall|key: Seq<u8>| #[trigger] t.positions.contains_key(key) implies pos_wf(t, t.positions[key]) by { assert(pos_wf(s, s.positions[key])); }
    assert forall|q: PoolKey, i: i32| pk_ok(q) implies #[trigger] tick_inv(t, q, i) by { assert(tick_inv(s, q, i)); assert(gross(t, q, i as int) == gross(s, q, i as int) && net(t, q, i as int) == net(s, q, i as int)); }
    assert forall|q: PoolKey, i: i32| pk_ok(q) implies #[trigger] bit_inv(t, q, i) by { assert(bit_inv(s, q, i)); assert(chunk_of(t, q, bidx(i as int, q.fee_tier.tick_spacing as int) / 64) == chunk_of(s, q, bidx(i as int, q.fee_tier.tick_spacing as int) / 64)); }
    assert forall|q: PoolKey| pk_ok(q) implies #[trigger] pool_inv(t, q) by {
        assert(pool_inv(s, q));
        if pkey(q) == pkey(k) {
            lemma_pkey_inj(q, k);
            lemma_new_pool_ok(q0, tick as int, ft.tick_spacing as int);
            let c = q0.current_tick_index as int;
            assert forall|key: Seq<u8>| #[trigger] s.positions.contains_key(key) implies aw(k, c)(s.positions[key]) == 0 by { assert(pos_wf(s, s.positions[key])); }
            lemma_psum_zero(s.positions, aw(k, c));
            assert(act(t, k, c) == 0);
        } else { assert(t.pools.contains_key(pkey(q)) <==> s.pools.contains_key(pkey(q))); }
    }
    assert forall|b: Seq<u8>, i: int| 0 <= i < 0x100000000 implies (t.positions.contains_key(#[trigger] poskey(b, i)) <==> i < plen_of(t, b)) by { assert(s.positions.contains_key(poskey(b, i)) <==> i < plen_of(s, b)); }
}
// ---- position lists ----
pub open spec fn keys_listed(s: SV) -> bool { inv_list(s) }
pub open spec fn all_wf(s: SV, m: Map<Seq<u8>, Position>) -> bool { forall|key: Seq<u8>| #[trigger] m.contains_key(key) ==> pos_wf(s, m[key]) }
pub proof fn lemma_added(s: SV, t: SV, a: Seq<u8>, p: Position)
    requires inv_list(s), pos_added(s, t, a, p)
    ensures inv_list(t), all_wf(s, s.positions) && pos_wf(s, p) ==> all_wf(s, t.positions), forall|f: spec_fn(Position) -> int| #[trigger] psum(t.positions, f) == psum(s.positions, f) + f(p)
{
    let n = plen_of(s, a);
    assert(!s.positions.contains_key(poskey(a, n)));
    assert forall|f: spec_fn(Position) -> int| #[trigger] psum(t.positions, f) == psum(s.positions, f) + f(p) by { lemma_psum_insert(s.positions, f, poskey(a, n), p); }
    assert forall|b: Seq<u8>, i: int| 0 <= i < 0x100000000 implies (t.positions.contains_key(#[trigger] poskey(b, i)) <==> i < plen_of(t, b)) by {
        assert(s.positions.contains_key(poskey(b, i)) <==> i < plen_of(s, b));
        if poskey(b, i) == poskey(a, n) { lemma_poskey_inj(b, i, a, n); }
    }
}
pub proof fn lemma_removed(s: SV, t: SV, a: Seq<u8>, i: int, p: Position)
    requires inv_list(s), pos_removed(s, t, a, i, p), 0 <= i < 0x100000000
    ensures inv_list(t), forall|v: SV| all_wf(v, s.positions) ==> #[trigger] all_wf(v, t.positions), forall|f: spec_fn(Position) -> int| #[trigger] psum(t.positions, f) == psum(s.positions, f) - f(p)
{
    let n = plen_of(s, a) - 1;
    assert(s.positions.contains_key(poskey(a, i)) <==> i < plen_of(s, a));
    assert(i <= n);
    let m = s.positions.remove(poskey(a, n));
    if i < n { if poskey(a, i) == poskey(a, n) { lemma_poskey_inj(a, i, a, n); } }
    assert forall|f: spec_fn(Position) -> int| #[trigger] psum(t.positions, f) == psum(s.positions, f) - f(p) by {
        lemma_psum_remove(s.positions, f, poskey(a, n));
        if i < n { lemma_psum_insert(m, f, poskey(a, i), s.positions[poskey(a, n)]); assert(m.contains_key(poskey(a, i))); }
    }
    assert forall|b: Seq<u8>, j: int| 0 <= j < 0x100000000 implies (t.positions.contains_key(#[trigger] poskey(b, j)) <==> j < plen_of(t, b)) by {
        assert(s.positions.contains_key(poskey(b, j)) <==> j < plen_of(s, b));
        if poskey(b, j) == poskey(a, n) { lemma_poskey_inj(b, j, a, n); }
        if poskey(b, j) == poskey(a, i) { lemma_poskey_inj(b, j, a, i); }
        if b == a && j == n { assert(poskey(b, j) == poskey(a, n)); }
    }
    assert forall|v: SV| all_wf(v, s.positions) implies #[trigger] all_wf(v, t.positions) by {
        assert forall|key: Seq<u8>| #[trigger] t.positions.contains_key(key) implies pos_wf(v, t.positions[key]) by {
            if i < n && key == poskey(a, i) { assert(s.positions.contains_key(poskey(a, n))); } else { assert(s.positions.contains_key(key)); }
        }
    }
}
/// only positions (and their lists) changed, and every sum is as before
pub proof fn lemma_inv_sums(s: SV, t: SV)
    requires inv(s), t == (SV { positions: t.positions, plen: t.plen, ..s }), inv_list(t), all_wf(s, t.positions),
        forall|k: PoolKey, i: int| #[trigger] gross(t, k, i) == gross(s, k, i), forall|k: PoolKey, i: int| #[trigger] net(t, k, i) == net(s, k, i), forall|k: PoolKey, i: int| #[trigger] act(t, k, i) == act(s, k, i)
    ensures inv(t)
{
    assert forall|key: Seq<u8>| #[trigger] t.positions.contains_key(key) implies pos_wf(t, t.positions[key]) by { assert(pos_wf(s, t.positions[key])); }
    assert forall|q: PoolKey, i: i32| pk_ok(q) implies #[trigger] tick_inv(t, q, i) by { assert(tick_inv(s, q, i)); assert(gross(t, q, i as int) == gross(s, q, i as int) && net(t, q, i as int) == net(s, q, i as int)); }
    assert forall|q: PoolKey, i: i32| pk_ok(q) implies #[trigger] bit_inv(t, q, i) by { assert(bit_inv(s, q, i)); assert(chunk_of(t, q, bidx(i as int, q.fee_tier.tick_spacing as int) / 64) == chunk_of(s, q, bidx(i as int, q.fee_tier.tick_spacing as int) / 64)); }
    assert forall|q: PoolKey| pk_ok(q) implies #[trigger] pool_inv(t, q) by { assert(pool_inv(s, q)); let c = s.pools[pkey(q)].current_tick_index as int; assert(act(t, q, c) == act(s, q, c)); }
}
pub open spec fn same_pos(p: Position, q: Position) -> bool { p.pool_key == q.pool_key && p.liquidity == q.liquidity && p.lower_tick_index == q.lower_tick_index && p.upper_tick_index == q.upper_tick_index }
pub proof fn lemma_inv_moved(s: SV, t: SV, from: Seq<u8>, i: int, to: Seq<u8>)
    requires inv(s), pos_moved(s, t, from, i, to), 0 <= i < 0x100000000
    ensures inv(t)
{
    let o = s.positions[poskey(from, i)];
    let (m, p) = choose|m: SV, p: Position| pos_removed(s, m, from, i, s.positions[poskey(from, i)]) && p == (Position { approvals: p.approvals, ..s.positions[poskey(from, i)] }) && p.approvals@.len() == 0 && #[trigger] pos_added(m, t, to, p);
    lemma_removed(s, m, from, i, o);
    lemma_added(m, t, to, p);
    assert(all_wf(s, s.positions));
    assert(all_wf(s, m.positions));
    assert(pos_wf(s, p)) by { assert(pos_wf(s, o)); }
    assert forall|key: Seq<u8>| #[trigger] t.positions.contains_key(key) implies pos_wf(s, t.positions[key]) by { if !m.positions.contains_key(key) {} }
    assert forall|k: PoolKey, j: int| #[trigger] gross(t, k, j) == gross(s, k, j) by { assert(psum(m.positions, gw(k, j)) == psum(s.positions, gw(k, j)) - gw(k, j)(o)); }
    assert forall|k: PoolKey, j: int| #[trigger] net(t, k, j) == net(s, k, j) by { assert(psum(m.positions, nw(k, j)) == psum(s.positions, nw(k, j)) - nw(k, j)(o)); }
    assert forall|k: PoolKey, j: int| #[trigger] act(t, k, j) == act(s, k, j) by { assert(psum(m.positions, aw(k, j)) == psum(s.positions, aw(k, j)) - aw(k, j)(o)); }
    lemma_inv_sums(s, t);
}
/// a position is rewritten without touching its pool, range or liquidity
pub proof fn lemma_rewritten(s: SV, t: SV, id: Seq<u8>, p: Position)
    requires inv_list(s), all_wf(s, s.positions), s.positions.contains_key(id), same_pos(s.positions[id], p), t.positions == s.positions.insert(id, p), t.plen == s.plen
    ensures inv_list(t), all_wf(s, t.positions),
        forall|k: PoolKey, i: int| #[trigger] gross(t, k, i) == gross(s, k, i), forall|k: PoolKey, i: int| #[trigger] net(t, k, i) == net(s, k, i), forall|k: PoolKey, i: int| #[trigger] act(t, k, i) == act(s, k, i)
{
    let o = s.positions[id];
    assert(pos_wf(s, o));
    assert forall|b: Seq<u8>, i: int| 0 <= i < 0x100000000 implies (t.positions.contains_key(#[trigger] poskey(b, i)) <==> i < plen_of(t, b)) by { assert(s.positions.contains_key(poskey(b, i)) <==> i < plen_of(s, b)); }
    assert forall|k: PoolKey, j: int| #[trigger] gross(t, k, j) == gross(s, k, j) by { lemma_psum_insert(s.positions, gw(k, j), id, p); }
    assert forall|k: PoolKey, j: int| #[trigger] net(t, k, j) == net(s, k, j) by { lemma_psum_insert(s.positions, nw(k, j), id, p); }
    assert forall|k: PoolKey, j: int| #[trigger] act(t, k, j) == act(s, k, j) by { lemma_psum_insert(s.positions, aw(k, j), id, p); }
}
pub proof fn lemma_inv_approved(s: SV, t: SV, id: Seq<u8>, p: Position)
    requires inv(s), s.positions.contains_key(id), same_pos(s.positions[id], p), t == (SV { positions: s.positions.insert(id, p), ..s })
    ensures inv(t)
{ lemma_rewritten(s, t, id, p); lemma_inv_sums(s, t); }
pub proof fn lemma_inv_claimed(s: SV, t: SV, who: Seq<u8>, i: int, now: u64, w: PosW, m: Seq<MV>)
    requires inv(s), fee_claimed_w(s, t, who, i, now, w, m)
    ensures inv(t)
{
    let k = w.pos.pool_key; let id = poskey(who, i);
    let p = Position { tokens_owed_x: TokenAmount(0), tokens_owed_y: TokenAmount(0), ..w.pos2 };
    assert(pos_wf(s, w.pos));
    assert(same_pos(w.pos, p));
    let u = SV { positions: t.positions, ..s };
    lemma_inv_approved(s, u, id, p);
    assert(tick_inv(s, k, w.pos.lower_tick_index) && tick_inv(s, k, w.pos.upper_tick_index));
    assert(w.lo2.index != w.up2.index);
    lemma_rewritten(s, u, id, p);
    assert(pool_inv(s, k));
    let c = w.p.current_tick_index as int;
    assert(act(u, k, c) == act(s, k, c));
    assert(t.pools[pkey(k)] == w.p2);
    // the two ticks keep gross and net; the sign of a zero net may change
    lemma_inv_swap_like(u, t, k);
}
/// ticks that keep index, gross and net
pub open spec fn tick_sim(t: Tick, u: Tick) -> bool { t.index == u.index && tick_net(t) == tick_net(u) && t.liquidity_gross == u.liquidity_gross }
pub open spec fn ticks_sim(m: Map<Seq<u8>, Tick>, n: Map<Seq<u8>, Tick>) -> bool { forall|key: Seq<u8>| (#[trigger] n.contains_key(key) <==> m.contains_key(key)) && (m.contains_key(key) ==> tick_sim(m[key], n[key])) }
// ---- ticks appear and disappear with their bit ----
pub proof fn lemma_valid_bidx(i: int, sp: int)
    requires valid_tick(i, sp)
    ensures 0 <= bidx(i, sp) < 0x400000, -MAXT() <= i <= MAXT()
{
    lemma_max_tick(sp);
    assert((i + MAXT()) / sp <= i + MAXT()) by { lemma_div_is_ordered_by_denominator(i + MAXT(), 1, sp); };
    lemma_div_pos_is_pos(i + MAXT(), sp);
}
pub proof fn lemma_bidx_eq(i: int, j: int, sp: int)
    requires sp > 0, i % sp == 0, j % sp == 0, bidx(i, sp) == bidx(j, sp)
    ensures i == j
{ lemma_bidx(i, sp); lemma_bidx(j, sp); }
/// the record of one tick is replaced (created, changed or removed), and its bit flipped iff it appeared or disappeared
pub open spec fn tick_moved(s: SV, t: SV, k: PoolKey, i: i32) -> bool {
    &&& t == (SV { ticks: t.ticks, bitmap: t.bitmap, ..s })
    &&& forall|key: Seq<u8>| key != tkey(k, i) ==> (#[trigger] t.ticks.contains_key(key) <==> s.ticks.contains_key(key)) && (s.ticks.contains_key(key) ==> t.ticks[key] == s.ticks[key])
    &&& forall|q: PoolKey, j: i32| pk_ok(q) && !(q == k && j == i) && valid_tick(j as int, q.fee_tier.tick_spacing as int) ==> #[trigger] marked(t, q, j) == marked(s, q, j)
}
pub open spec fn marked(s: SV, k: PoolKey, i: i32) -> bool { bit_set(s, k, i as int, k.fee_tier.tick_spacing as int) }
pub proof fn lemma_flipped(s: SV, t: SV, k: PoolKey, i: i32)
    requires pk_ok(k), valid_tick(i as int, k.fee_tier.tick_spacing as int), bits_flipped(s, t, k, bidx(i as int, k.fee_tier.tick_spacing as int))
    ensures marked(t, k, i) == !marked(s, k, i), forall|q: PoolKey, j: i32| pk_ok(q) && !(q == k && j == i) && valid_tick(j as int, q.fee_tier.tick_spacing as int) ==> #[trigger] marked(t, q, j) == marked(s, q, j)
{
    let n = bidx(i as int, k.fee_tier.tick_spacing as int);
    lemma_valid_bidx(i as int, k.fee_tier.tick_spacing as int);
    assert(bit_of(t.bitmap[bkey(n / 64, k)], n % 64) == !bit_of(chunk_of(s, k, n / 64), n % 64));
    assert forall|q: PoolKey, j: i32| pk_ok(q) && !(q == k && j == i) && valid_tick(j as int, q.fee_tier.tick_spacing as int) implies #[trigger] marked(t, q, j) == marked(s, q, j) by {
        let n2 = bidx(j as int, q.fee_tier.tick_spacing as int);
        lemma_valid_bidx(j as int, q.fee_tier.tick_spacing as int);
        if bkey(n2 / 64, q) == bkey(n / 64, k) {
            lemma_bkey_inj(n2 / 64, q, n / 64, k);
            if n2 % 64 == n % 64 { assert(n2 == n); lemma_bidx_eq(i as int, j as int, k.fee_tier.tick_spacing as int); }
            assert(bit_of(t.bitmap[bkey(n / 64, k)], n2 % 64) == bit_of(chunk_of(s, k, n / 64), n2 % 64));
        }
    }
}
pub proof fn lemma_got(s: SV, t: SV, k: PoolKey, i: i32, now: u64, tk: Tick)
    requires pk_ok(k), tick_got(s, t, k, i, now, tk), ticks_idx(s, k)
    ensures tick_moved(s, t, k, i), t.ticks.contains_key(tkey(k, i)), t.ticks[tkey(k, i)] == tk, tk.index == i, ticks_idx(t, k),
        s.ticks.contains_key(tkey(k, i)) ==> t == s,
        !s.ticks.contains_key(tkey(k, i)) ==> marked(t, k, i) && valid_tick(i as int, k.fee_tier.tick_spacing as int) && tk.liquidity_gross.0 == 0 && tick_net(tk) == 0
{
    if !s.ticks.contains_key(tkey(k, i)) {
        let u = SV { ticks: s.ticks, ..t };
        lemma_flipped(s, u, k, i);
        assert forall|q: PoolKey, j: i32| marked(u, q, j) == #[trigger] marked(t, q, j) by { assert(chunk_of(u, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64) == chunk_of(t, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64)); }
        assert(marked(u, k, i) == marked(t, k, i));
        assert forall|q: PoolKey, j: i32| pk_ok(q) && !(q == k && j == i) && valid_tick(j as int, q.fee_tier.tick_spacing as int) implies #[trigger] marked(t, q, j) == marked(s, q, j) by { assert(marked(u, q, j) == marked(t, q, j)); }
        assert forall|j: i32| t.ticks.contains_key(#[trigger] tkey(k, j)) implies t.ticks[tkey(k, j)].index == j by { if tkey(k, j) == tkey(k, i) { lemma_tkey_inj(k, j, k, i); } }
    }
}
pub proof fn lemma_put(s: SV, t: SV, k: PoolKey, i: i32, tk: Tick)
    requires pk_ok(k), tick_put(s, t, k, i, tk), tk.index == i, valid_tick(i as int, k.fee_tier.tick_spacing as int), marked(s, k, i)
    ensures tick_moved(s, t, k, i), t.ticks.contains_key(tkey(k, i)) <==> tk.liquidity_gross.0 > 0, t.ticks.contains_key(tkey(k, i)) ==> t.ticks[tkey(k, i)] == tk,
        marked(t, k, i) <==> tk.liquidity_gross.0 > 0
{
    if tk.liquidity_gross.0 == 0 {
        let u = SV { ticks: s.ticks, ..t };
        lemma_flipped(s, u, k, i);
        assert forall|q: PoolKey, j: i32| marked(u, q, j) == #[trigger] marked(t, q, j) by { assert(chunk_of(u, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64) == chunk_of(t, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64)); }
        assert(marked(u, k, i) == marked(t, k, i));
        assert forall|q: PoolKey, j: i32| pk_ok(q) && !(q == k && j == i) && valid_tick(j as int, q.fee_tier.tick_spacing as int) implies #[trigger] marked(t, q, j) == marked(s, q, j) by { assert(marked(u, q, j) == marked(t, q, j)); }
    } else {
        assert forall|q: PoolKey, j: i32| marked(s, q, j) == #[trigger] marked(t, q, j) by { assert(chunk_of(s, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64) == chunk_of(t, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64)); }
    }
}
/// liquidity d of a position of pool k between lo and up appeared (d > 0) or disappeared (d < 0)
pub open spec fn sums_moved(s: SV, t: SV, k: PoolKey, lo: i32, up: i32, d: int) -> bool {
    &&& forall|q: PoolKey, i: int| #[trigger] gross(t, q, i) == gross(s, q, i) + (if q == k && (i == lo || i == up) { d } else { 0 })
    &&& forall|q: PoolKey, i: int| #[trigger] net(t, q, i) == net(s, q, i) + (if q == k && i == lo { d } else if q == k && i == up { -d } else { 0 })
    &&& forall|q: PoolKey, c: int| #[trigger] act(t, q, c) == act(s, q, c) + (if q == k && lo <= c < up { d } else { 0 })
}
pub open spec fn tick_end(t: SV, k: PoolKey, i: i32, g: int, n: int) -> bool {
    let tk = t.ticks[tkey(k, i)];
    &&& t.ticks.contains_key(tkey(k, i)) <==> g > 0
    &&& g > 0 ==> tk.index == i && tk.liquidity_gross.0 == g && tick_net(tk) == n && g < max_liq_per_tick(k.fee_tier.tick_spacing as int)
    &&& marked(t, k, i) <==> g > 0
}
/// the two ticks of a position and its pool follow the sums
pub proof fn lemma_inv_modified(s: SV, m: SV, t: SV, k: PoolKey, lo: i32, up: i32, d: int)
    requires inv(s), pk_ok(k), s.pools.contains_key(pkey(k)), inv_list(t), all_wf(t, t.positions), sums_moved(s, t, k, lo, up, d), lo < up,
        valid_tick(lo as int, k.fee_tier.tick_spacing as int), valid_tick(up as int, k.fee_tier.tick_spacing as int),
        tick_end(t, k, lo, gross(t, k, lo as int), net(t, k, lo as int)), tick_end(t, k, up, gross(t, k, up as int), net(t, k, up as int)),
        t == (SV { pools: s.pools.insert(pkey(k), t.pools[pkey(k)]), positions: t.positions, plen: t.plen, ticks: m.ticks, bitmap: m.bitmap, ..s }),
        forall|key: Seq<u8>| key != tkey(k, lo) && key != tkey(k, up) ==> (#[trigger] m.ticks.contains_key(key) <==> s.ticks.contains_key(key)) && (s.ticks.contains_key(key) ==> m.ticks[key] == s.ticks[key]),
        forall|q: PoolKey, j: i32| pk_ok(q) && !(q == k && (j == lo || j == up)) && valid_tick(j as int, q.fee_tier.tick_spacing as int) ==> #[trigger] marked(m, q, j) == marked(s, q, j),
        ({ let p = s.pools[pkey(k)]; let p2 = t.pools[pkey(k)]; p2.sqrt_price == p.sqrt_price && p2.current_tick_index == p.current_tick_index && p2.liquidity.0 == p.liquidity.0 + (if lo <= p.current_tick_index < up { d } else { 0 }) }),
    ensures inv(t)
{
    assert forall|q: PoolKey, i: i32| pk_ok(q) implies #[trigger] tick_inv(t, q, i) by {
        assert(tick_inv(s, q, i));
        if q == k && (i == lo || i == up) { lemma_gross(t, k, i as int); } else {
            if tkey(q, i) == tkey(k, lo) { lemma_tkey_inj(q, i, k, lo); }
            if tkey(q, i) == tkey(k, up) { lemma_tkey_inj(q, i, k, up); }
            assert(m.ticks.contains_key(tkey(q, i)) <==> s.ticks.contains_key(tkey(q, i)));
            assert(gross(t, q, i as int) == gross(s, q, i as int)); assert(net(t, q, i as int) == net(s, q, i as int));
        }
    }
    assert forall|q: PoolKey, i: i32| pk_ok(q) implies #[trigger] bit_inv(t, q, i) by {
        assert(bit_inv(s, q, i));
        if valid_tick(i as int, q.fee_tier.tick_spacing as int) {
            assert(chunk_of(t, q, bidx(i as int, q.fee_tier.tick_spacing as int) / 64) == chunk_of(m, q, bidx(i as int, q.fee_tier.tick_spacing as int) / 64));
            assert(marked(t, q, i) == marked(m, q, i));
            if q == k && (i == lo || i == up) {} else {
                if tkey(q, i) == tkey(k, lo) { lemma_tkey_inj(q, i, k, lo); }
                if tkey(q, i) == tkey(k, up) { lemma_tkey_inj(q, i, k, up); }
                assert(marked(m, q, i) == marked(s, q, i));
                assert(m.ticks.contains_key(tkey(q, i)) <==> s.ticks.contains_key(tkey(q, i)));
            }
        }
    }
    assert forall|q: PoolKey| pk_ok(q) implies #[trigger] pool_inv(t, q) by {
        assert(pool_inv(s, q));
        if pkey(q) == pkey(k) { lemma_pkey_inj(q, k); }
        let c = s.pools[pkey(q)].current_tick_index as int;
        assert(act(t, q, c) == act(s, q, c) + (if q == k && lo <= c < up { d } else { 0 }));
    }
}
pub proof fn lemma_inv_created(s: SV, t: SV, a: PosArg, w: PosW, m: Seq<MV>)
    requires inv(s), pos_created_w(s, t, a, w, m), a.delta > 0
    ensures inv(t)
{
    let k = a.k; let (lo, up) = (a.lower, a.upper);
    lemma_inv_idx(s, k);
    lemma_got(s, w.s1, k, lo, a.now, w.lo);
    lemma_got(w.s1, w.s2, k, up, a.now, w.up);
    assert(tick_inv(s, k, lo) && tick_inv(s, k, up) && bit_inv(s, k, lo) && bit_inv(s, k, up));
    if tkey(k, lo) == tkey(k, up) { lemma_tkey_inj(k, lo, k, up); }
    lemma_gross(s, k, lo as int); lemma_gross(s, k, up as int);
    assert(w.s1.ticks.contains_key(tkey(k, up)) <==> s.ticks.contains_key(tkey(k, up)));
    assert(w.s2.ticks.contains_key(tkey(k, lo)) && w.s2.ticks[tkey(k, lo)] == w.lo) by { assert(w.s1.ticks.contains_key(tkey(k, lo))); assert(w.s2.ticks.contains_key(tkey(k, lo)) <==> w.s1.ticks.contains_key(tkey(k, lo))); }
    assert(lo < up);
    let pre = SV { pools: s.pools.insert(pkey(k), w.p2), ..w.s2 };
    let t2 = SV { ticks: w.s2.ticks, ..t };
    lemma_added(pre, t2, a.who, w.pos2);
    let p = w.pos2;
    assert(p.pool_key == k && p.lower_tick_index == lo && p.upper_tick_index == up && p.liquidity.0 == a.delta);
    let sp = k.fee_tier.tick_spacing as int;
    assert(valid_tick(lo as int, sp) && valid_tick(up as int, sp));
    assert(marked(w.s1, k, lo)); assert(marked(w.s2, k, lo) == marked(w.s1, k, lo)); assert(marked(w.s2, k, up));
    assert forall|q: PoolKey, i: int| #[trigger] gross(t, q, i) == gross(s, q, i) + (if q == k && (i == lo || i == up) { p.liquidity.0 as int } else { 0 }) by { assert(psum(t2.positions, gw(q, i)) == psum(pre.positions, gw(q, i)) + gw(q, i)(p)); }
    assert forall|q: PoolKey, i: int| #[trigger] net(t, q, i) == net(s, q, i) + (if q == k && i == lo { p.liquidity.0 as int } else if q == k && i == up { -(p.liquidity.0 as int) } else { 0 }) by { assert(psum(t2.positions, nw(q, i)) == psum(pre.positions, nw(q, i)) + nw(q, i)(p)); }
    assert forall|q: PoolKey, c: int| #[trigger] act(t, q, c) == act(s, q, c) + (if q == k && lo <= c < up { p.liquidity.0 as int } else { 0 }) by { assert(psum(t2.positions, aw(q, c)) == psum(pre.positions, aw(q, c)) + aw(q, c)(p)); }
    assert(sums_moved(s, t, k, lo, up, p.liquidity.0 as int));
    assert forall|key: Seq<u8>| #[trigger] t.positions.contains_key(key) implies pos_wf(t, t.positions[key]) by {
        if key != poskey(a.who, plen_of(pre, a.who)) { assert(s.positions.contains_key(key)); assert(pos_wf(s, s.positions[key])); }
    }
    assert forall|b: Seq<u8>, i: int| 0 <= i < 0x100000000 implies (t.positions.contains_key(#[trigger] poskey(b, i)) <==> i < plen_of(t, b)) by { assert(t2.positions.contains_key(poskey(b, i)) <==> i < plen_of(t2, b)); }
    assert forall|q: PoolKey, j: i32| marked(w.s2, q, j) == #[trigger] marked(t, q, j) by { assert(chunk_of(w.s2, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64) == chunk_of(t, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64)); }
    assert(marked(t, k, lo) && marked(t, k, up));
    assert(t.ticks == two_ticks(w.s2.ticks, k, w.lo2, w.up2));
    assert(tick_end(t, k, lo, gross(t, k, lo as int), net(t, k, lo as int)));
    assert(tick_end(t, k, up, gross(t, k, up as int), net(t, k, up as int)));
    assert forall|key: Seq<u8>| key != tkey(k, lo) && key != tkey(k, up) implies (#[trigger] t.ticks.contains_key(key) <==> s.ticks.contains_key(key)) && (s.ticks.contains_key(key) ==> t.ticks[key] == s.ticks[key]) by {
        assert(w.s2.ticks.contains_key(key) <==> w.s1.ticks.contains_key(key)); assert(w.s1.ticks.contains_key(key) <==> s.ticks.contains_key(key));
    }
    assert forall|q: PoolKey, j: i32| pk_ok(q) && !(q == k && (j == lo || j == up)) && valid_tick(j as int, q.fee_tier.tick_spacing as int) implies #[trigger] marked(t, q, j) == marked(s, q, j) by { assert(marked(w.s2, q, j) == marked(w.s1, q, j)); assert(marked(w.s1, q, j) == marked(s, q, j)); }
    lemma_inv_modified(s, t, t, k, lo, up, p.liquidity.0 as int);
}
/// both ticks of a position put back, in either order
pub proof fn lemma_put2(s: SV, t1: SV, t: SV, k: PoolKey, i: i32, a: Tick, j: i32, b: Tick)
    requires pk_ok(k), i != j, tick_put(s, t1, k, i, a), tick_put(t1, t, k, j, b), a.index == i, b.index == j,
        valid_tick(i as int, k.fee_tier.tick_spacing as int), valid_tick(j as int, k.fee_tier.tick_spacing as int), marked(s, k, i), marked(s, k, j)
    ensures t == (SV { ticks: t.ticks, bitmap: t.bitmap, ..s }), put_back(t, k, i, a), put_back(t, k, j, b),
        forall|key: Seq<u8>| key != tkey(k, i) && key != tkey(k, j) ==> (#[trigger] t.ticks.contains_key(key) <==> s.ticks.contains_key(key)) && (s.ticks.contains_key(key) ==> t.ticks[key] == s.ticks[key]),
        forall|q: PoolKey, n: i32| pk_ok(q) && !(q == k && (n == i || n == j)) && valid_tick(n as int, q.fee_tier.tick_spacing as int) ==> #[trigger] marked(t, q, n) == marked(s, q, n),
{
    lemma_put(s, t1, k, i, a);
    assert(marked(t1, k, j) == marked(s, k, j));
    lemma_put(t1, t, k, j, b);
    assert(marked(t, k, i) == marked(t1, k, i));
    if tkey(k, i) == tkey(k, j) { lemma_tkey_inj(k, i, k, j); }
    assert(t.ticks.contains_key(tkey(k, i)) <==> t1.ticks.contains_key(tkey(k, i)));
    assert forall|key: Seq<u8>| key != tkey(k, i) && key != tkey(k, j) implies (#[trigger] t.ticks.contains_key(key) <==> s.ticks.contains_key(key)) && (s.ticks.contains_key(key) ==> t.ticks[key] == s.ticks[key]) by { assert(t1.ticks.contains_key(key) <==> s.ticks.contains_key(key)); }
    assert forall|q: PoolKey, n: i32| pk_ok(q) && !(q == k && (n == i || n == j)) && valid_tick(n as int, q.fee_tier.tick_spacing as int) implies #[trigger] marked(t, q, n) == marked(s, q, n) by { assert(marked(t1, q, n) == marked(s, q, n)); }
}
pub open spec fn put_back(t: SV, k: PoolKey, i: i32, a: Tick) -> bool {
    &&& t.ticks.contains_key(tkey(k, i)) <==> a.liquidity_gross.0 > 0
    &&& t.ticks.contains_key(tkey(k, i)) ==> t.ticks[tkey(k, i)] == a
    &&& marked(t, k, i) <==> a.liquidity_gross.0 > 0
}
pub proof fn lemma_inv_closed(s: SV, t: SV, who: Seq<u8>, i: int, now: u64, w: PosW, m: Seq<MV>)
    requires inv(s), pos_closed_w(s, t, who, i, now, w, m), 0 <= i < 0x100000000
    ensures inv(t)
{
    let p = w.pos; let k = p.pool_key; let (lo, up) = (p.lower_tick_index, p.upper_tick_index); let sp = k.fee_tier.tick_spacing as int;
    let d = p.liquidity.0 as int;
    assert(pos_wf(s, p));
    lemma_inv_idx(s, k);
    lemma_ends(s, poskey(who, i));
    assert(tick_inv(s, k, lo) && tick_inv(s, k, up));
    let pre = SV { pools: s.pools.insert(pkey(k), w.p2), ..s };
    assert forall|q: PoolKey, j: i32| marked(pre, q, j) == #[trigger] marked(s, q, j) by { assert(chunk_of(s, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64) == chunk_of(pre, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64)); }
    assert(marked(s, k, lo) && marked(s, k, up));
    if tick_put(pre, w.s1, k, lo, w.lo2) && tick_put(w.s1, w.s2, k, up, w.up2) { lemma_put2(pre, w.s1, w.s2, k, lo, w.lo2, up, w.up2); }
    else { lemma_put2(pre, w.s1, w.s2, k, up, w.up2, lo, w.lo2); }
    assert(inv_list(w.s2)) by {
        assert forall|b: Seq<u8>, j: int| 0 <= j < 0x100000000 implies (w.s2.positions.contains_key(#[trigger] poskey(b, j)) <==> j < plen_of(w.s2, b)) by { assert(s.positions.contains_key(poskey(b, j)) <==> j < plen_of(s, b)); }
    }
    lemma_removed(w.s2, t, who, i, p);
    assert forall|q: PoolKey, n: int| #[trigger] gross(t, q, n) == gross(s, q, n) + (if q == k && (n == lo || n == up) { -d } else { 0 }) by { assert(psum(t.positions, gw(q, n)) == psum(w.s2.positions, gw(q, n)) - gw(q, n)(p)); }
    assert forall|q: PoolKey, n: int| #[trigger] net(t, q, n) == net(s, q, n) + (if q == k && n == lo { -d } else if q == k && n == up { d } else { 0 }) by { assert(psum(t.positions, nw(q, n)) == psum(w.s2.positions, nw(q, n)) - nw(q, n)(p)); }
    assert forall|q: PoolKey, c: int| #[trigger] act(t, q, c) == act(s, q, c) + (if q == k && lo <= c < up { -d } else { 0 }) by { assert(psum(t.positions, aw(q, c)) == psum(w.s2.positions, aw(q, c)) - aw(q, c)(p)); }
    assert(sums_moved(s, t, k, lo, up, -d));
    assert(all_wf(s, s.positions));
    assert(all_wf(s, t.positions));
    assert forall|key: Seq<u8>| #[trigger] t.positions.contains_key(key) implies pos_wf(t, t.positions[key]) by { assert(pos_wf(s, t.positions[key])); }
    assert forall|q: PoolKey, j: i32| marked(w.s2, q, j) == #[trigger] marked(t, q, j) by { assert(chunk_of(w.s2, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64) == chunk_of(t, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64)); }
    assert(put_back(w.s2, k, lo, w.lo2) && put_back(w.s2, k, up, w.up2));
    assert(marked(t, k, lo) == marked(w.s2, k, lo)); assert(marked(t, k, up) == marked(w.s2, k, up));
    assert(gross(t, k, lo as int) == w.lo2.liquidity_gross.0); assert(gross(t, k, up as int) == w.up2.liquidity_gross.0);
    assert(net(t, k, lo as int) == tick_net(w.lo2)); assert(net(t, k, up as int) == tick_net(w.up2));
    assert(tick_end(t, k, lo, gross(t, k, lo as int), net(t, k, lo as int)));
    assert(tick_end(t, k, up, gross(t, k, up as int), net(t, k, up as int)));
    assert forall|q: PoolKey, j: i32| pk_ok(q) && !(q == k && (j == lo || j == up)) && valid_tick(j as int, q.fee_tier.tick_spacing as int) implies #[trigger] marked(t, q, j) == marked(s, q, j) by { assert(marked(w.s2, q, j) == marked(pre, q, j)); }
    assert(t.pools[pkey(k)] == w.p2);
    lemma_inv_modified(s, t, t, k, lo, up, -d);
}
// ---- A09, A10, A11: the invariant holds initially and every message preserves it ----
pub open spec fn fresh(s: SV) -> bool { s.pools.dom().len() == 0 && s.ticks.dom().len() == 0 && s.positions.dom().len() == 0 && s.plen.dom().len() == 0 && s.bitmap.dom().len() == 0 }
pub proof fn lemma_inv_init(s: SV, t: SV, who: Seq<u8>, fee: crate::math::types::percentage::Percentage)
    requires fresh(s), instantiated(s, t, who, fee)
    ensures inv(t)
{
    assert(s.pools.dom() =~= Set::<Seq<u8>>::empty() && s.ticks.dom() =~= Set::<Seq<u8>>::empty() && s.positions.dom() =~= Set::<Seq<u8>>::empty() && s.plen.dom() =~= Set::<Seq<u8>>::empty() && s.bitmap.dom() =~= Set::<Seq<u8>>::empty());
    assert forall|k: PoolKey, i: i32| pk_ok(k) implies #[trigger] tick_inv(t, k, i) by { lemma_psum_zero(t.positions, gw(k, i as int)); assert(!t.ticks.dom().contains(tkey(k, i))); }
    assert forall|k: PoolKey, i: i32| pk_ok(k) implies #[trigger] bit_inv(t, k, i) by {
        assert(!t.ticks.dom().contains(tkey(k, i)));
        let n = bidx(i as int, k.fee_tier.tick_spacing as int);
        if valid_tick(i as int, k.fee_tier.tick_spacing as int) {
            assert(!t.bitmap.dom().contains(bkey(n / 64, k)));
            let b = (n % 64) as u64;
            assert((0u64 >> b) & 1 == 0) by (bit_vector);
        }
    }
    assert forall|k: PoolKey| pk_ok(k) implies #[trigger] pool_inv(t, k) by { assert(!t.pools.dom().contains(pkey(k))); }
    assert forall|b: Seq<u8>, i: int| 0 <= i < 0x100000000 implies (t.positions.contains_key(#[trigger] poskey(b, i)) <==> i < plen_of(t, b)) by { assert(!t.plen.dom().contains(b)); assert(!t.positions.dom().contains(poskey(b, i))); }
    assert forall|key: Seq<u8>| #[trigger] t.positions.contains_key(key) implies pos_wf(t, t.positions[key]) by { assert(!t.positions.dom().contains(key)); }
}
pub proof fn lemma_inv_executed(s: SV, t: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, out: Seq<CosmosMsg>)
    requires inv(s), executed(s, t, env, info, msg, out)
    ensures inv(t)
{
    let who = info.sender@; let now = env.block.time.millis_spec(); let m = mvs(out);
    match msg {
        ExecuteMsg::CreatePosition { pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper } => {
            let a = pos_arg(env, info, pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper);
            let w = choose|w: PosW| pos_created_w(s, t, a, w, m);
            lemma_inv_created(s, t, a, w, m);
        }
        ExecuteMsg::Mint { extension: e } => {
            let a = pos_arg(env, info, e.pool_key, e.lower_tick, e.upper_tick, e.liquidity_delta, e.slippage_limit_lower, e.slippage_limit_upper);
            let w = choose|w: PosW| pos_created_w(s, t, a, w, m);
            lemma_inv_created(s, t, a, w, m);
        }
        ExecuteMsg::Swap { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => {
            let a = sw_arg(s, env, pool_key, x_to_y, by_amount_in, sqrt_price_limit);
            let res = choose|res: CalculateSwapResult| #[trigger] swapped(a, amount.0 as int, res, t, info, env.contract.address@, Seq::<MV>::empty(), m);
            lemma_inv_swap(a, amount.0 as int, res);
        }
        ExecuteMsg::SwapRoute { amount_in, expected_amount_out, slippage, swaps } => {
            let st0 = RtSt { s, amt: amount_in.0 as int, funds: info.funds@, m: Seq::<MV>::empty() };
            let st = choose|st: RtSt| st.s == t && st.m == m && st.amt >= min_out(expected_amount_out.0 as int, slippage.0 as int) && #[trigger] rt_ok(swaps@, now, who, env.contract.address@, st0, st);
            let tr = choose|tr: Seq<RtRec>| rt_run(swaps@, tr, now, who, env.contract.address@, st0, st);
            lemma_inv_route(swaps@, tr, now, who, env.contract.address@, st0, st);
        }
        ExecuteMsg::TransferPosition { index, receiver } => { lemma_inv_moved(s, t, who, index as int, receiver@); }
        ExecuteMsg::ClaimFee { index } => { let w = choose|w: PosW| fee_claimed_w(s, t, who, index as int, now, w, m); lemma_inv_claimed(s, t, who, index as int, now, w, m); }
        ExecuteMsg::RemovePosition { index } => { let w = choose|w: PosW| pos_closed_w(s, t, who, index as int, now, w, m); lemma_inv_closed(s, t, who, index as int, now, w, m); }
        ExecuteMsg::CreatePool { token_0, token_1, fee_tier, init_sqrt_price, init_tick } => {
            let k = choose|k: PoolKey| #[trigger] pool_created(s, t, now, token_0@, token_1@, fee_tier, init_sqrt_price, init_tick, k);
            lemma_inv_pool_created(s, t, now, token_0@, token_1@, fee_tier, init_sqrt_price, init_tick, k);
        }
        ExecuteMsg::Approve { spender, token_id, expires } => { let p = choose|p: Position| #[trigger] approvals_updated(s, t, token_id@, who, env.block, spender@, true, expires, p); lemma_inv_approved(s, t, token_id@, p); }
        ExecuteMsg::Revoke { spender, token_id } => { let p = choose|p: Position| #[trigger] approvals_updated(s, t, token_id@, who, env.block, spender@, false, None, p); lemma_inv_approved(s, t, token_id@, p); }
        ExecuteMsg::TransferNft { recipient, token_id } => { let o = owner_of(token_id@); let i = choose|i: u32| token_id@ == poskey(o, i as int) && #[trigger] pos_moved(s, t, o, i as int, recipient@); lemma_inv_moved(s, t, o, i as int, recipient@); }
        ExecuteMsg::SendNft { contract, token_id, msg } => { let o = owner_of(token_id@); let i = choose|i: u32| token_id@ == poskey(o, i as int) && #[trigger] pos_moved(s, t, o, i as int, contract@); lemma_inv_moved(s, t, o, i as int, contract@); }
        ExecuteMsg::Burn { token_id } => {
            let o = owner_of(token_id@); let i = choose|i: u32| token_id@ == poskey(o, i as int) && #[trigger] pos_closed(s, t, o, i as int, now, m);
            let w = choose|w: PosW| pos_closed_w(s, t, o, i as int, now, w, m); lemma_inv_closed(s, t, o, i as int, now, w, m);
        }
        _ => { lemma_inv_frame(s, t); }
    }
}
// ---- A08: what a range sees grows by exactly what is collected while it is active ----
pub open spec fn glob(p: Pool, x: bool) -> int { if x { p.fee_growth_global_x.0 as int } else { p.fee_growth_global_y.0 as int } }
pub open spec fn outs(t: Tick, x: bool) -> int { if x { t.fee_growth_outside_x.0 as int } else { t.fee_growth_outside_y.0 as int } }
pub open spec fn ins(p: Pool, lo: Tick, up: Tick, x: bool) -> int { fg_inside(lo.index as int, outs(lo, x), up.index as int, outs(up, x), p.current_tick_index as int, glob(p, x)) }
/// the growth inside the range between two ticks of a pool, as any position with that range reads it
pub open spec fn inside(s: SV, k: PoolKey, lo: i32, up: i32, x: bool) -> int { ins(s.pools[pkey(k)], s.ticks[tkey(k, lo)], s.ticks[tkey(k, up)], x) }
pub open spec fn range_of(s: SV, k: PoolKey, lo: i32, up: i32) -> bool { pk_ok(k) && s.pools.contains_key(pkey(k)) && lo < up && s.ticks.contains_key(tkey(k, lo)) && s.ticks.contains_key(tkey(k, up)) }
/// what one step adds for a range: all it collected if the range is active, else nothing
pub open spec fn step_grown(r: SwRec, lo: int, up: int, x: bool) -> int { if lo <= r.pre.pool.current_tick_index < up { wsub(glob(r.post.pool, x), glob(r.pre.pool, x)) } else { 0 } }
pub open spec fn run_grown(tr: Seq<SwRec>, lo: int, up: int, x: bool) -> int decreases tr.len() { if tr.len() == 0 { 0 } else { wadd(run_grown(tr.drop_last(), lo, up, x), step_grown(tr.last(), lo, up, x)) } }
pub open spec fn tick_now(a: SwArg, st: SwSt, i: i32) -> Tick { ticks_written(a.s.ticks, a.k, st.ticks)[tkey(a.k, i)] }
/// the ticks crossed so far lie behind the current tick
pub open spec fn behind(a: SwArg, st: SwSt) -> bool { forall|n: int| 0 <= n < st.ticks.len() ==> (if a.xy { (#[trigger] st.ticks[n]).index > st.pool.current_tick_index } else { st.ticks[n].index <= st.pool.current_tick_index }) }
pub proof fn lemma_unwritten(m: Map<Seq<u8>, Tick>, k: PoolKey, ts: Seq<Tick>, i: i32)
    requires pk_ok(k), forall|n: int| 0 <= n < ts.len() ==> (#[trigger] ts[n]).index != i
    ensures ticks_written(m, k, ts)[tkey(k, i)] == m[tkey(k, i)], ticks_written(m, k, ts).contains_key(tkey(k, i)) == m.contains_key(tkey(k, i))
    decreases ts.len()
{
    if ts.len() > 0 {
        let us = ts.drop_last();
        assert forall|n: int| 0 <= n < us.len() implies (#[trigger] us[n]).index != i by { assert(us[n] == ts[n]); }
        lemma_unwritten(m, k, us, i);
        let l = ts[ts.len() - 1];
        assert(ts.last() == l);
        if tkey(k, l.index) == tkey(k, i) { lemma_tkey_inj(k, l.index, k, i); }
    }
}
pub proof fn lemma_push_written(m: Map<Seq<u8>, Tick>, k: PoolKey, ts: Seq<Tick>, t: Tick, i: i32)
    requires pk_ok(k)
    ensures ticks_written(m, k, ts.push(t))[tkey(k, i)] == (if t.index == i { t } else { ticks_written(m, k, ts)[tkey(k, i)] })
{
    assert(ts.push(t).drop_last() =~= ts);
    assert(ts.push(t).last() == t);
    if tkey(k, t.index) == tkey(k, i) { lemma_tkey_inj(k, t.index, k, i); }
}
pub proof fn lemma_added_glob(p: Pool, q: Pool, amount: int, in_x: bool, rate: int, x: bool)
    requires pool_add_fee(p, q, amount, in_x, rate)
    ensures w128(glob(q, x)), q.current_tick_index == p.current_tick_index
{}
pub proof fn lemma_step_grown(a: SwArg, r: SwRec, lo: i32, up: i32, x: bool)
    requires inv(a.s), range_of(a.s, a.k, lo, up), sw_step(a, r), pool_ok(r.pre.pool, sw_sp(a)), sw_pre(a, r.pre.pool), written_like(a, r.pre.ticks), behind(a, r.pre)
    ensures behind(a, r.post), ins(r.post.pool, tick_now(a, r.post, lo), tick_now(a, r.post, up), x) == wadd(ins(r.pre.pool, tick_now(a, r.pre, lo), tick_now(a, r.pre, up), x), step_grown(r, lo as int, up as int, x))
{
    lemma_inv_idx(a.s, a.k);
    lemma_step_marks(a, r);
    lemma_sw_step(a, r);
    lemma_written(a, r.pre.ticks);
    let (p, q) = (r.pre.pool, r.post.pool);
    let c = p.current_tick_index as int; let d = q.current_tick_index as int;
    let (tl, tu) = (tick_now(a, r.pre, lo), tick_now(a, r.pre, up));
    let wm = ticks_written(a.s.ticks, a.k, r.pre.ticks);
    assert(wm.contains_key(tkey(a.k, lo)) && wm.contains_key(tkey(a.k, up)));
    assert(tl.index == lo && tu.index == up);
    assert(tick_inv(a.s, a.k, lo) && tick_inv(a.s, a.k, up) && bit_inv(a.s, a.k, lo) && bit_inv(a.s, a.k, up));
    let sp = sw_sp(a);
    assert(bit_set(a.s, a.k, lo as int, sp) && bit_set(a.s, a.k, up as int, sp));
    let (g, g2) = (glob(p, x), glob(q, x));
    let dg = wsub(g2, g);
    lemma_fg_collect(lo as int, outs(tl, x), up as int, outs(tu, x), c, g, dg);
    assert(wadd(g, dg) == g2);
    // the fee counted at the current tick, before anything moves
    let mid = fg_inside(lo as int, outs(tl, x), up as int, outs(tu, x), c, g2);
    assert(mid == wadd(ins(p, tl, tu, x), step_grown(r, lo as int, up as int, x)));
    if !r.crossed {
        assert(r.post.ticks == r.pre.ticks);
        lemma_fg_move(lo as int, outs(tl, x), up as int, outs(tu, x), c, d, g2);
        if a.xy { assert(!(d < lo <= c) && !(d < up <= c)); } else { assert(!(c < lo <= d) && !(c < up <= d)); }
    } else {
        let i = r.lt->Some_0.0; let j = i as int;
        let t = a.s.ticks[tkey(a.k, i)];
        let u = r.tu1->TickInitialized_0;
        assert(t.index == i && u.index == i);
        assert forall|n: int| 0 <= n < r.pre.ticks.len() implies (#[trigger] r.pre.ticks[n]).index != i by {}
        lemma_unwritten(a.s.ticks, a.k, r.pre.ticks, i);
        lemma_push_written(a.s.ticks, a.k, r.pre.ticks, u, lo);
        lemma_push_written(a.s.ticks, a.k, r.pre.ticks, u, up);
        assert(outs(u, x) == wsub(g2, outs(t, x)));
        assert forall|n: int| 0 <= n < r.post.ticks.len() implies (if a.xy { (#[trigger] r.post.ticks[n]).index > d } else { r.post.ticks[n].index <= d }) by { if n < r.pre.ticks.len() { assert(r.post.ticks[n] == r.pre.ticks[n]); } }
        if i == lo { assert(tl == t); lemma_fg_cross_lower(lo as int, outs(tl, x), up as int, outs(tu, x), c, d, g2); }
        else if i == up { assert(tu == t); lemma_fg_cross_upper(lo as int, outs(tl, x), up as int, outs(tu, x), c, d, g2); }
        else { lemma_fg_move(lo as int, outs(tl, x), up as int, outs(tu, x), c, d, g2); }
    }
}
pub proof fn lemma_wadd_assoc(a: int, b: int, c: int) requires w128(a), w128(b), w128(c) ensures wadd(wadd(a, b), c) == wadd(a, wadd(b, c)), w128(wadd(a, b)), wadd(a, 0) == a {}
pub proof fn lemma_ins_w(p: Pool, lo: Tick, up: Tick, x: bool) ensures w128(ins(p, lo, up, x)) {}
pub proof fn lemma_run_w(tr: Seq<SwRec>, lo: int, up: int, x: bool) ensures w128(run_grown(tr, lo, up, x)) decreases tr.len() { if tr.len() > 0 { lemma_run_w(tr.drop_last(), lo, up, x); } }
pub proof fn lemma_run_grown(a: SwArg, tr: Seq<SwRec>, st0: SwSt, st: SwSt, lo: i32, up: i32, x: bool)
    requires inv(a.s), range_of(a.s, a.k, lo, up), sw_run(a, tr, st0, st), pool_ok(st0.pool, sw_sp(a)), sw_pre(a, st0.pool), sw_lq(a, st0.pool), st0.ticks.len() == 0
    ensures behind(a, st), ins(st.pool, tick_now(a, st, lo), tick_now(a, st, up), x) == wadd(ins(st0.pool, a.s.ticks[tkey(a.k, lo)], a.s.ticks[tkey(a.k, up)], x), run_grown(tr, lo as int, up as int, x))
    decreases tr.len()
{
    let i0 = ins(st0.pool, a.s.ticks[tkey(a.k, lo)], a.s.ticks[tkey(a.k, up)], x);
    lemma_ins_w(st0.pool, a.s.ticks[tkey(a.k, lo)], a.s.ticks[tkey(a.k, up)], x);
    if tr.len() > 0 {
        let r = tr.last();
        lemma_run_grown(a, tr.drop_last(), st0, r.pre, lo, up, x);
        lemma_run_liq(a, tr.drop_last(), st0, r.pre);
        lemma_step_grown(a, r, lo, up, x);
        lemma_run_w(tr.drop_last(), lo as int, up as int, x);
        lemma_wadd_assoc(i0, run_grown(tr.drop_last(), lo as int, up as int, x), step_grown(r, lo as int, up as int, x));
    } else { lemma_unwritten(a.s.ticks, a.k, st.ticks, lo); lemma_unwritten(a.s.ticks, a.k, st.ticks, up); }
}
pub open spec fn grown(s: SV, t: SV, k: PoolKey, lo: i32, up: i32, gx: int, gy: int) -> bool { inside(t, k, lo, up, true) == wadd(inside(s, k, lo, up, true), gx) && inside(t, k, lo, up, false) == wadd(inside(s, k, lo, up, false), gy) }
/// a swap: its own pool's ranges grow by what its steps collected while they were active, other pools' ranges not at all
pub proof fn lemma_swap_grown(a: SwArg, amount: int, tr: Seq<SwRec>, r: CalculateSwapResult, k: PoolKey, lo: i32, up: i32)
    requires inv(a.s), sw_done(a, amount, tr, r), range_of(a.s, k, lo, up)
    ensures range_of(sw_store(a.s, a.k, r), k, lo, up), k == a.k ==> grown(a.s, sw_store(a.s, a.k, r), k, lo, up, run_grown(tr, lo as int, up as int, true), run_grown(tr, lo as int, up as int, false)),
        k != a.k ==> grown(a.s, sw_store(a.s, a.k, r), k, lo, up, 0, 0)
{
    let (st0, st) = (sw_start(a, amount), sw_end(r)); let t = sw_store(a.s, a.k, r);
    assert(pool_inv(a.s, a.k));
    lemma_run_liq(a, tr, st0, st);
    lemma_written(a, r.ticks@);
    assert(t.ticks.contains_key(tkey(k, lo)) && t.ticks.contains_key(tkey(k, up)));
    if k == a.k {
        lemma_run_grown(a, tr, st0, st, lo, up, true);
        lemma_run_grown(a, tr, st0, st, lo, up, false);
    } else {
        if pkey(k) == pkey(a.k) { lemma_pkey_inj(k, a.k); }
        lemma_elsewhere(a.s.ticks, a.k, r.ticks@, k, lo); lemma_elsewhere(a.s.ticks, a.k, r.ticks@, k, up);
        lemma_ins_w(a.s.pools[pkey(k)], a.s.ticks[tkey(k, lo)], a.s.ticks[tkey(k, up)], true); lemma_ins_w(a.s.pools[pkey(k)], a.s.ticks[tkey(k, lo)], a.s.ticks[tkey(k, up)], false);
    }
}
pub proof fn lemma_elsewhere(m: Map<Seq<u8>, Tick>, k: PoolKey, ts: Seq<Tick>, q: PoolKey, i: i32)
    requires pk_ok(k), pk_ok(q), k != q
    ensures ticks_written(m, k, ts)[tkey(q, i)] == m[tkey(q, i)]
    decreases ts.len()
{
    if ts.len() > 0 { lemma_elsewhere(m, k, ts.drop_last(), q, i); if tkey(k, ts.last().index) == tkey(q, i) { lemma_tkey_inj(k, ts.last().index, q, i); } }
}
/// the steps behind each hop of a route, and what they collected for a range
pub open spec fn hop_steps(hs: Seq<SwapHop>, tr: Seq<RtRec>, ss: Seq<Seq<SwRec>>, now: u64) -> bool
    decreases hs.len()
{
    if hs.len() == 0 { ss.len() == 0 } else { tr.len() > 0 && ss.len() > 0 && sw_done(rt_arg(tr.last().pre.s, hs.last(), now), tr.last().pre.amt, ss.last(), tr.last().res) && hop_steps(hs.drop_last(), tr.drop_last(), ss.drop_last(), now) }
}
pub open spec fn hop_grown(h: SwapHop, ss: Seq<SwRec>, k: PoolKey, lo: int, up: int, x: bool) -> int { if h.pool_key == k { run_grown(ss, lo, up, x) } else { 0 } }
pub open spec fn route_grown(hs: Seq<SwapHop>, ss: Seq<Seq<SwRec>>, k: PoolKey, lo: int, up: int, x: bool) -> int
    decreases hs.len()
{ if hs.len() == 0 { 0 } else { wadd(route_grown(hs.drop_last(), ss.drop_last(), k, lo, up, x), hop_grown(hs.last(), ss.last(), k, lo, up, x)) } }
pub proof fn lemma_route_w(hs: Seq<SwapHop>, ss: Seq<Seq<SwRec>>, k: PoolKey, lo: int, up: int, x: bool) ensures w128(route_grown(hs, ss, k, lo, up, x)) decreases hs.len()
{ if hs.len() > 0 { lemma_route_w(hs.drop_last(), ss.drop_last(), k, lo, up, x); lemma_run_w(ss.last(), lo, up, x); } }
pub proof fn lemma_route_steps(hs: Seq<SwapHop>, tr: Seq<RtRec>, now: u64, sender: Seq<u8>, me: Seq<u8>, st0: RtSt, st: RtSt) -> (ss: Seq<Seq<SwRec>>)
    requires rt_run(hs, tr, now, sender, me, st0, st)
    ensures hop_steps(hs, tr, ss, now)
    decreases hs.len()
{
    if hs.len() == 0 { Seq::<Seq<SwRec>>::empty() } else {
        let r = tr.last();
        let s1 = lemma_route_steps(hs.drop_last(), tr.drop_last(), now, sender, me, st0, r.pre);
        let a = rt_arg(r.pre.s, hs.last(), now);
        assert(sw_ok(a, r.pre.amt, r.res));
        let l = choose|l: Seq<SwRec>| sw_done(a, r.pre.amt, l, r.res);
        assert(s1.push(l).drop_last() =~= s1);
        s1.push(l)
    }
}
pub proof fn lemma_route_grown(hs: Seq<SwapHop>, tr: Seq<RtRec>, ss: Seq<Seq<SwRec>>, now: u64, sender: Seq<u8>, me: Seq<u8>, st0: RtSt, st: RtSt, k: PoolKey, lo: i32, up: i32)
    requires inv(st0.s), rt_run(hs, tr, now, sender, me, st0, st), hop_steps(hs, tr, ss, now), range_of(st0.s, k, lo, up)
    ensures range_of(st.s, k, lo, up), grown(st0.s, st.s, k, lo, up, route_grown(hs, ss, k, lo as int, up as int, true), route_grown(hs, ss, k, lo as int, up as int, false))
    decreases hs.len()
{
    lemma_ins_w(st0.s.pools[pkey(k)], st0.s.ticks[tkey(k, lo)], st0.s.ticks[tkey(k, up)], true); lemma_ins_w(st0.s.pools[pkey(k)], st0.s.ticks[tkey(k, lo)], st0.s.ticks[tkey(k, up)], false);
    if hs.len() > 0 {
        let r = tr.last(); let h = hs.last(); let l = ss.last();
        lemma_route_grown(hs.drop_last(), tr.drop_last(), ss.drop_last(), now, sender, me, st0, r.pre, k, lo, up);
        lemma_inv_route(hs.drop_last(), tr.drop_last(), now, sender, me, st0, r.pre);
        lemma_swap_grown(rt_arg(r.pre.s, h, now), r.pre.amt, l, r.res, k, lo, up);
        assert(st.s == sw_store(r.pre.s, h.pool_key, r.res));
        lemma_one_more(inside(st0.s, k, lo, up, true), route_grown(hs.drop_last(), ss.drop_last(), k, lo as int, up as int, true), hop_grown(h, l, k, lo as int, up as int, true), hs, ss, k, lo as int, up as int, true);
        lemma_one_more(inside(st0.s, k, lo, up, false), route_grown(hs.drop_last(), ss.drop_last(), k, lo as int, up as int, false), hop_grown(h, l, k, lo as int, up as int, false), hs, ss, k, lo as int, up as int, false);
    }
}
pub proof fn lemma_one_more(i0: int, a: int, b: int, hs: Seq<SwapHop>, ss: Seq<Seq<SwRec>>, k: PoolKey, lo: int, up: int, x: bool)
    requires w128(i0), hs.len() > 0, a == route_grown(hs.drop_last(), ss.drop_last(), k, lo, up, x), b == hop_grown(hs.last(), ss.last(), k, lo, up, x)
    ensures wadd(wadd(i0, a), b) == wadd(i0, route_grown(hs, ss, k, lo, up, x)), w128(a), w128(b)
{ lemma_route_w(hs.drop_last(), ss.drop_last(), k, lo, up, x); lemma_run_w(ss.last(), lo, up, x); lemma_wadd_assoc(i0, a, b); }
/// a tick keeps its index and what it recorded about fees
pub open spec fn tick_fees_kept(t: Tick, u: Tick) -> bool { t.index == u.index && t.fee_growth_outside_x == u.fee_growth_outside_x && t.fee_growth_outside_y == u.fee_growth_outside_y }
pub open spec fn fees_kept(s: SV, t: SV) -> bool {
    &&& forall|key: Seq<u8>| #[trigger] s.ticks.contains_key(key) && t.ticks.contains_key(key) ==> tick_fees_kept(s.ticks[key], t.ticks[key])
    &&& forall|key: Seq<u8>| #[trigger] s.pools.contains_key(key) ==> t.pools.contains_key(key) && ({ let (p, q) = (s.pools[key], t.pools[key]); p.current_tick_index == q.current_tick_index && p.fee_growth_global_x == q.fee_growth_global_x && p.fee_growth_global_y == q.fee_growth_global_y })
}
/// messages other than swaps change nothing inside any range that exists before and after
pub proof fn lemma_kept_grown(s: SV, t: SV, k: PoolKey, lo: i32, up: i32)
    requires fees_kept(s, t), range_of(s, k, lo, up), t.ticks.contains_key(tkey(k, lo)), t.ticks.contains_key(tkey(k, up))
    ensures range_of(t, k, lo, up), grown(s, t, k, lo, up, 0, 0)
{
    lemma_ins_w(s.pools[pkey(k)], s.ticks[tkey(k, lo)], s.ticks[tkey(k, up)], true); lemma_ins_w(s.pools[pkey(k)], s.ticks[tkey(k, lo)], s.ticks[tkey(k, up)], false);
    assert(s.ticks.contains_key(tkey(k, lo)) && t.ticks.contains_key(tkey(k, lo)) && s.ticks.contains_key(tkey(k, up)) && t.ticks.contains_key(tkey(k, up)));
    assert(s.pools.contains_key(pkey(k)));
}
pub proof fn lemma_created_kept(s: SV, t: SV, a: PosArg, w: PosW, m: Seq<MV>)
    requires inv(s), pos_created_w(s, t, a, w, m)
    ensures fees_kept(s, t)
{
    let k = a.k; let (lo, up) = (a.lower, a.upper);
    lemma_inv_idx(s, k);
    lemma_got(s, w.s1, k, lo, a.now, w.lo);
    lemma_got(w.s1, w.s2, k, up, a.now, w.up);
    if tkey(k, lo) == tkey(k, up) { lemma_tkey_inj(k, lo, k, up); }
    assert(w.s1.ticks.contains_key(tkey(k, up)) <==> s.ticks.contains_key(tkey(k, up)));
    assert(t.ticks == two_ticks(w.s2.ticks, k, w.lo2, w.up2));
    assert forall|key: Seq<u8>| #[trigger] s.ticks.contains_key(key) && t.ticks.contains_key(key) implies tick_fees_kept(s.ticks[key], t.ticks[key]) by {
        if key != tkey(k, lo) && key != tkey(k, up) { assert(w.s1.ticks.contains_key(key) <==> s.ticks.contains_key(key)); assert(w.s2.ticks.contains_key(key) <==> w.s1.ticks.contains_key(key)); }
    }
}
pub proof fn lemma_claimed_kept(s: SV, t: SV, who: Seq<u8>, i: int, now: u64, w: PosW, m: Seq<MV>)
    requires inv(s), fee_claimed_w(s, t, who, i, now, w, m)
    ensures fees_kept(s, t)
{
    let k = w.pos.pool_key;
    assert(pos_wf(s, w.pos));
    assert(tick_inv(s, k, w.pos.lower_tick_index) && tick_inv(s, k, w.pos.upper_tick_index));
    assert(w.lo2.index != w.up2.index);
}
pub proof fn lemma_closed_kept(s: SV, t: SV, who: Seq<u8>, i: int, now: u64, w: PosW, m: Seq<MV>)
    requires inv(s), pos_closed_w(s, t, who, i, now, w, m)
    ensures fees_kept(s, t)
{
    let p = w.pos; let k = p.pool_key; let (lo, up) = (p.lower_tick_index, p.upper_tick_index);
    assert(pos_wf(s, p));
    lemma_inv_idx(s, k);
    lemma_ends(s, poskey(who, i));
    assert(tick_inv(s, k, lo) && tick_inv(s, k, up));
    let pre = SV { pools: s.pools.insert(pkey(k), w.p2), ..s };
    assert forall|q: PoolKey, j: i32| marked(pre, q, j) == #[trigger] marked(s, q, j) by { assert(chunk_of(s, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64) == chunk_of(pre, q, bidx(j as int, q.fee_tier.tick_spacing as int) / 64)); }
    assert(marked(s, k, lo) && marked(s, k, up));
    if tick_put(pre, w.s1, k, lo, w.lo2) && tick_put(w.s1, w.s2, k, up, w.up2) { lemma_put2(pre, w.s1, w.s2, k, lo, w.lo2, up, w.up2); }
    else { lemma_put2(pre, w.s1, w.s2, k, up, w.up2, lo, w.lo2); }
    assert(put_back(w.s2, k, lo, w.lo2) && put_back(w.s2, k, up, w.up2));
    assert forall|key: Seq<u8>| #[trigger] s.ticks.contains_key(key) && t.ticks.contains_key(key) implies tick_fees_kept(s.ticks[key], t.ticks[key]) by {
        if key != tkey(k, lo) && key != tkey(k, up) { assert(w.s2.ticks.contains_key(key) <==> s.ticks.contains_key(key)); }
    }
}
/// what a message collects for a range while it is active
pub open spec fn msg_grown(s: SV, t: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, m: Seq<MV>, k: PoolKey, lo: i32, up: i32) -> bool {
    let now = env.block.time.millis_spec();
    match msg {
        ExecuteMsg::Swap { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => exists|tr: Seq<SwRec>, res: CalculateSwapResult| #[trigger] sw_done(sw_arg(s, env, pool_key, x_to_y, by_amount_in, sqrt_price_limit), amount.0 as int, tr, res)
            && (if k == pool_key { grown(s, t, k, lo, up, run_grown(tr, lo as int, up as int, true), run_grown(tr, lo as int, up as int, false)) } else { grown(s, t, k, lo, up, 0, 0) }),
        ExecuteMsg::SwapRoute { amount_in, expected_amount_out, slippage, swaps } => exists|tr: Seq<RtRec>, ss: Seq<Seq<SwRec>>| #[trigger] hop_steps(swaps@, tr, ss, now)
            && grown(s, t, k, lo, up, route_grown(swaps@, ss, k, lo as int, up as int, true), route_grown(swaps@, ss, k, lo as int, up as int, false)),
        _ => grown(s, t, k, lo, up, 0, 0),
    }
}
/// A08: every message, every range that exists before and after it
pub proof fn lemma_executed_grown(s: SV, t: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, out: Seq<CosmosMsg>, k: PoolKey, lo: i32, up: i32)
    requires inv(s), executed(s, t, env, info, msg, out), range_of(s, k, lo, up), t.ticks.contains_key(tkey(k, lo)), t.ticks.contains_key(tkey(k, up))
    ensures msg_grown(s, t, env, info, msg, mvs(out), k, lo, up)
{
    let who = info.sender@; let now = env.block.time.millis_spec(); let m = mvs(out);
    match msg {
        ExecuteMsg::Swap { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => {
            let a = sw_arg(s, env, pool_key, x_to_y, by_amount_in, sqrt_price_limit);
            let res = choose|res: CalculateSwapResult| #[trigger] swapped(a, amount.0 as int, res, t, info, env.contract.address@, Seq::<MV>::empty(), m);
            let tr = choose|tr: Seq<SwRec>| sw_done(a, amount.0 as int, tr, res);
            lemma_swap_grown(a, amount.0 as int, tr, res, k, lo, up);
            assert(sw_done(sw_arg(s, env, pool_key, x_to_y, by_amount_in, sqrt_price_limit), amount.0 as int, tr, res));
        }
        ExecuteMsg::SwapRoute { amount_in, expected_amount_out, slippage, swaps } => {
            let st0 = RtSt { s, amt: amount_in.0 as int, funds: info.funds@, m: Seq::<MV>::empty() };
            let st = choose|st: RtSt| st.s == t && st.m == m && st.amt >= min_out(expected_amount_out.0 as int, slippage.0 as int) && #[trigger] rt_ok(swaps@, now, who, env.contract.address@, st0, st);
            let tr = choose|tr: Seq<RtRec>| rt_run(swaps@, tr, now, who, env.contract.address@, st0, st);
            let ss = lemma_route_steps(swaps@, tr, now, who, env.contract.address@, st0, st);
            lemma_route_grown(swaps@, tr, ss, now, who, env.contract.address@, st0, st, k, lo, up);
        }
        ExecuteMsg::CreatePosition { pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper } => {
            let a = pos_arg(env, info, pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper);
            let w = choose|w: PosW| pos_created_w(s, t, a, w, m);
            lemma_created_kept(s, t, a, w, m); lemma_kept_grown(s, t, k, lo, up);
        }
        ExecuteMsg::Mint { extension: e } => {
            let a = pos_arg(env, info, e.pool_key, e.lower_tick, e.upper_tick, e.liquidity_delta, e.slippage_limit_lower, e.slippage_limit_upper);
            let w = choose|w: PosW| pos_created_w(s, t, a, w, m);
            lemma_created_kept(s, t, a, w, m); lemma_kept_grown(s, t, k, lo, up);
        }
        ExecuteMsg::ClaimFee { index } => { let w = choose|w: PosW| fee_claimed_w(s, t, who, index as int, now, w, m); lemma_claimed_kept(s, t, who, index as int, now, w, m); lemma_kept_grown(s, t, k, lo, up); }
        ExecuteMsg::RemovePosition { index } => { let w = choose|w: PosW| pos_closed_w(s, t, who, index as int, now, w, m); lemma_closed_kept(s, t, who, index as int, now, w, m); lemma_kept_grown(s, t, k, lo, up); }
        ExecuteMsg::Burn { token_id } => {
            let o = owner_of(token_id@); let i = choose|i: u32| token_id@ == poskey(o, i as int) && #[trigger] pos_closed(s, t, o, i as int, now, m);
            let w = choose|w: PosW| pos_closed_w(s, t, o, i as int, now, w, m); lemma_closed_kept(s, t, o, i as int, now, w, m); lemma_kept_grown(s, t, k, lo, up);
        }
        ExecuteMsg::CreatePool { token_0, token_1, fee_tier, init_sqrt_price, init_tick } => {
            let kk = choose|k: PoolKey| #[trigger] pool_created(s, t, now, token_0@, token_1@, fee_tier, init_sqrt_price, init_tick, k);
            assert(fees_kept(s, t)); lemma_kept_grown(s, t, k, lo, up);
        }
        ExecuteMsg::TransferPosition { index, receiver } => { lemma_kept_grown(s, t, k, lo, up); }
        ExecuteMsg::TransferNft { recipient, token_id } => { lemma_kept_grown(s, t, k, lo, up); }
        ExecuteMsg::SendNft { contract, token_id, msg } => { lemma_kept_grown(s, t, k, lo, up); }
        _ => { assert(fees_kept(s, t)); lemma_kept_grown(s, t, k, lo, up); }
    }
}
/// while a position exists, the ticks of its range exist: what it is credited is what its range collected since its snapshot
pub proof fn lemma_position_range(s: SV, key: Seq<u8>)
    requires inv(s), s.positions.contains_key(key)
    ensures range_of(s, s.positions[key].pool_key, s.positions[key].lower_tick_index, s.positions[key].upper_tick_index)
{ lemma_ends(s, key); assert(pos_wf(s, s.positions[key])); }
} // verus!
} // mod vinv
