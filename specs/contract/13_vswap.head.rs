// A swap as a sequence of steps (A05, A06, A08, A09).
pub mod vswap {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use crate::prelude::*;
use crate::{FeeTier, Pool, PoolKey, Position, Tick, UpdatePoolTick, SwapResult};
use crate::interface::{Approval, CalculateSwapResult, SwapHop};
use crate::math::types::sqrt_price::SqrtPrice;
verus! {
pub ghost struct SwArg { pub s: SV, pub k: PoolKey, pub now: u64, pub xy: bool, pub by_in: bool, pub limit: SqrtPrice }
pub ghost struct SwSt { pub pool: Pool, pub rem: int, pub tin: int, pub tout: int, pub fee: int, pub ticks: Seq<Tick> }
pub ghost struct SwRec { pub pre: SwSt, pub lim: SqrtPrice, pub lt: Option<(i32, bool)>, pub res: SwapResult, pub mid: Pool, pub tu0: UpdatePoolTick, pub tu1: UpdatePoolTick, pub added: int, pub crossed: bool, pub post: SwSt }
pub open spec fn sw_rate(a: SwArg) -> int { a.s.config->Some_0.protocol_fee.0 as int }
pub open spec fn sw_sp(a: SwArg) -> int { a.k.fee_tier.tick_spacing as int }
/// the limit of a step: always the limit itself or a tick's price on the near side of it; the nearest one when the tick is aligned
pub open spec fn sw_lim(a: SwArg, cur: int, lim: int, lt: Option<(i32, bool)>) -> bool {
    &&& sw_sp(a) > 0
    &&& cur % sw_sp(a) == 0 ==> closer_ok(a.s, a.k, a.limit.0 as int, a.xy, cur, sw_sp(a), lim, lt)
    &&& match lt { None => lim == a.limit.0, Some((i, init)) => lim == tick_price(i as int) && before_limit(i as int, a.xy, a.limit.0 as int) && -MAXT() <= i <= MAXT() }
}
pub open spec fn sw_step(a: SwArg, r: SwRec) -> bool {
    let p = r.pre.pool; let ft = a.k.fee_tier;
    let (price, lim, l) = (p.sqrt_price.0 as int, r.lim.0 as int, p.liquidity.0 as int);
    let (ain, aout, fee) = (r.res.amount_in.0 as int, r.res.amount_out.0 as int, r.res.fee_amount.0 as int);
    let rem1 = r.pre.rem - (if a.by_in { ain + fee } else { aout });
    &&& r.pre.rem > 0 && rem1 >= 0 && r.post.rem >= 0 && r.added >= 0
    &&& sw_lim(a, p.current_tick_index as int, lim, r.lt)
    &&& r.res.next_sqrt_price.0 == step_next(price, lim, l, r.pre.rem, a.by_in, ft.fee.0 as int)
    &&& ain == step_in(price, lim, l, r.pre.rem, a.by_in, ft.fee.0 as int)
    &&& aout == step_out(price, lim, l, r.pre.rem, a.by_in, ft.fee.0 as int)
    &&& fee == step_fee(price, lim, l, r.pre.rem, a.by_in, ft.fee.0 as int)
    &&& price >= MINP() && lim >= MINP() ==> step_ok(price, lim, l, r.pre.rem, a.by_in, ft.fee.0 as int, r.res.next_sqrt_price.0 as int, ain, aout, fee)
    &&& a.s.config is Some && pool_add_fee(p, r.mid, fee, a.xy, sw_rate(a))
    &&& r.res.next_sqrt_price.0 == a.limit.0 ==> rem1 == 0
    &&& match r.lt {
        None => r.tu0 is NoTick,
        Some((i, init)) => if init { a.s.ticks.contains_key(tkey(a.k, i)) && r.tu0 == UpdatePoolTick::TickInitialized(a.s.ticks[tkey(a.k, i)]) } else { r.tu0 == UpdatePoolTick::TickUninitialized(i) },
    }
    &&& update_tick_ok(Pool { sqrt_price: r.res.next_sqrt_price, ..r.mid }, r.post.pool, r.tu0, r.tu1, r.res, r.lim, rem1, a.by_in, a.xy, a.now, sw_rate(a), ft, r.added, r.post.rem, r.crossed)
    &&& r.post.tin == r.pre.tin + ain + fee + r.added && r.post.tout == r.pre.tout + aout && r.post.fee == r.pre.fee + fee
    &&& r.post.ticks == (if r.crossed { r.pre.ticks.push(r.tu1->TickInitialized_0) } else { r.pre.ticks })
    &&& if a.xy { r.post.pool.current_tick_index > -max_tick(sw_sp(a)) } else { r.post.pool.current_tick_index < max_tick(sw_sp(a)) }
}
pub open spec fn sw_run(a: SwArg, tr: Seq<SwRec>, st0: SwSt, st: SwSt) -> bool
    decreases tr.len()
{
    if tr.len() == 0 { st == st0 } else { sw_step(a, tr.last()) && tr.last().post == st && sw_run(a, tr.drop_last(), st0, tr.last().pre) }
}
pub open spec fn sw_start(a: SwArg, amount: int) -> SwSt { SwSt { pool: a.s.pools[pkey(a.k)], rem: amount, tin: 0, tout: 0, fee: 0, ticks: Seq::<Tick>::empty() } }
pub open spec fn sw_end(r: CalculateSwapResult) -> SwSt { SwSt { pool: r.pool, rem: 0, tin: r.amount_in.0 as int, tout: r.amount_out.0 as int, fee: r.fee.0 as int, ticks: r.ticks@ } }
pub open spec fn sw_done(a: SwArg, amount: int, tr: Seq<SwRec>, r: CalculateSwapResult) -> bool {
    let p = a.s.pools[pkey(a.k)];
    &&& amount > 0 && pk_ok(a.k) && a.s.pools.contains_key(pkey(a.k))
    &&& if a.xy { p.sqrt_price.0 > a.limit.0 && a.limit.0 <= MAXP() } else { p.sqrt_price.0 < a.limit.0 && a.limit.0 >= MINP() }
    &&& sw_run(a, tr, sw_start(a, amount), sw_end(r))
    &&& r.amount_out.0 > 0 && r.start_sqrt_price == p.sqrt_price && r.target_sqrt_price == r.pool.sqrt_price
}
pub open spec fn sw_ok(a: SwArg, amount: int, r: CalculateSwapResult) -> bool { exists|tr: Seq<SwRec>| sw_done(a, amount, tr, r) }
pub proof fn lemma_sw_push(a: SwArg, tr: Seq<SwRec>, st0: SwSt, rec: SwRec)
    requires sw_run(a, tr, st0, rec.pre), sw_step(a, rec)
    ensures sw_run(a, tr.push(rec), st0, rec.post)
{ assert(tr.push(rec).drop_last() =~= tr); }
// ---- the state of a pool: its tick is aligned and in range, its price lies in the tick (or exactly at its upper end) ----
pub open spec fn pool_ok(p: Pool, sp: int) -> bool {
    let c = p.current_tick_index as int;
    &&& sp > 0 && c % sp == 0 && -max_tick(sp) <= c <= max_tick(sp)
    &&& MINP() <= p.sqrt_price.0 <= MAXP()
    &&& tick_price(c) <= p.sqrt_price.0 && (c + sp <= MAXT() ==> p.sqrt_price.0 <= tick_price(c + sp))
}
/// stored ticks carry their own index
pub open spec fn ticks_idx(s: SV, k: PoolKey) -> bool { forall|i: i32| s.ticks.contains_key(#[trigger] tkey(k, i)) ==> s.ticks[tkey(k, i)].index == i }
pub proof fn lemma_search(s: SV, k: PoolKey, t: int, sp: int, xy: bool, i: i32, init: bool)
    requires search_ok(s, k, t, sp, xy, i, init), valid_tick(t, sp)
    ensures i as int % sp == 0, -MAXT() <= i <= MAXT(), xy ==> i <= t, !xy ==> i >= t + sp
{
    lemma_limits(t, sp); lemma_bidx(t, sp); lemma_max_tick(sp);
    let n = MAXT() / sp; let (a, b) = (imin(t / sp + 256, n), imax(t / sp - 256, -n));
    lemma_mul_le(t / sp, n, sp); lemma_mul_le(-n, t / sp, sp);
    lemma_mul_le(t / sp, a, sp); lemma_mul_le(b, t / sp, sp);
    assert((-n) * sp == -(n * sp)) by (nonlinear_arith);
    if !xy {
        lemma_bidx(i as int, sp);
        lemma_mul_le(t / sp, i as int / sp, sp); lemma_mul_le(t / sp + 1, i as int / sp, sp);
        assert((t / sp + 1) * sp == (t / sp) * sp + sp) by (nonlinear_arith);
    }
}
pub proof fn lemma_tp_le(a: int, b: int) requires -MAXT() <= a <= b <= MAXT() ensures tick_price(a) <= tick_price(b) { if a < b { lemma_tick_price(a, b); } }
/// where the step may go: within range, and never past the caller's limit
pub proof fn lemma_sw_lim(a: SwArg, p: Pool, lim: int, lt: Option<(i32, bool)>)
    requires pool_ok(p, sw_sp(a)), sw_lim(a, p.current_tick_index as int, lim, lt), if a.xy { a.limit.0 <= p.sqrt_price.0 && a.limit.0 <= MAXP() } else { p.sqrt_price.0 <= a.limit.0 && a.limit.0 >= MINP() }
    ensures MINP() <= lim <= MAXP(), if a.xy { a.limit.0 <= lim <= p.sqrt_price.0 } else { p.sqrt_price.0 <= lim <= a.limit.0 },
        lt is Some ==> ({ let i = lt->Some_0.0; i as int % sw_sp(a) == 0 && -MAXT() <= i <= MAXT() && (a.xy ==> i <= p.current_tick_index) && (!a.xy ==> i >= p.current_tick_index + sw_sp(a)) })
{
    reveal(closer_ok);
    let (c, sp) = (p.current_tick_index as int, sw_sp(a));
    lemma_max_tick(sp);
    match lt {
        Some((i, init)) => {
            lemma_search(a.s, a.k, c, sp, a.xy, i, init);
            lemma_price_range(i as int);
            if a.xy { lemma_tp_le(i as int, c); } else { lemma_tp_le(c + sp, i as int); }
        }
        None => {
            let (i, init) = choose|i: i32, init: bool| #[trigger] search_ok(a.s, a.k, c, sp, a.xy, i, init) && !before_limit(i as int, a.xy, a.limit.0 as int);
            lemma_search(a.s, a.k, c, sp, a.xy, i, init);
            lemma_price_range(i as int);
        }
    }
}
/// one step keeps the pool well formed, moves the price in the right direction and stays within the limit
pub proof fn lemma_sw_step(a: SwArg, r: SwRec)
    requires sw_step(a, r), pool_ok(r.pre.pool, sw_sp(a)), ticks_idx(a.s, a.k),
        if a.xy { a.limit.0 <= r.pre.pool.sqrt_price.0 && a.limit.0 <= MAXP() } else { r.pre.pool.sqrt_price.0 <= a.limit.0 && a.limit.0 >= MINP() }
    ensures pool_ok(r.post.pool, sw_sp(a)), r.post.pool.sqrt_price == r.res.next_sqrt_price,
        if a.xy { a.limit.0 <= r.post.pool.sqrt_price.0 <= r.pre.pool.sqrt_price.0 && r.post.pool.current_tick_index <= r.pre.pool.current_tick_index }
        else { r.pre.pool.sqrt_price.0 <= r.post.pool.sqrt_price.0 <= a.limit.0 && r.pre.pool.current_tick_index <= r.post.pool.current_tick_index }
{
    let (p, q, sp, next) = (r.pre.pool, r.post.pool, sw_sp(a), r.res.next_sqrt_price.0 as int);
    let c = p.current_tick_index as int; let d = q.current_tick_index as int;
    lemma_sw_lim(a, p, r.lim.0 as int, r.lt);
    lemma_max_tick(sp);
    assert(r.mid.current_tick_index == p.current_tick_index);
    assert(q.sqrt_price.0 == next);
    lemma_cands(next);
    let t1 = tick1(next);
    lemma_tick_at(t1, next, sp);
    let i = tick_at(next, sp);
    if r.tu0 is NoTick || r.lim.0 != next {
        if a.xy {
            if c < i { lemma_tick_price(c, i); } else {}
        } else {
            assert(tick_price(c) <= next);
        }
        if d == i {
            if i + sp <= MAXT() { lemma_tp_le(t1 + 1, i + sp); }
        }
    } else {
        let j = r.lt->Some_0.0 as int;
        lemma_sub_mod(j, sp);
        if d + sp <= MAXT() { lemma_tp_le(j, d + sp); }
        lemma_mod_bound(j, sp);
        if d == j - sp { lemma_tp_le(d, j); }
        lemma_mt_le(j, sp);
    }
}
pub proof fn lemma_sub_mod(j: int, sp: int) requires sp > 0, j % sp == 0 ensures (j - sp) % sp == 0, (j + sp) % sp == 0 { lemma_mod_sub_multiples_vanish(j, sp); lemma_mod_add_multiples_vanish(j, sp); }
/// an aligned tick in range lies within the extreme aligned ticks
pub proof fn lemma_mt_le(j: int, sp: int) requires sp > 0, j % sp == 0, -MAXT() <= j <= MAXT() ensures -max_tick(sp) <= j <= max_tick(sp)
{
    lemma_limits(j, sp); lemma_bidx(j, sp);
    lemma_mul_le(j / sp, MAXT() / sp, sp); lemma_mul_le(-(MAXT() / sp), j / sp, sp);
    lemma_max_tick(sp);
}
pub open spec fn sw_sums(a: SwArg, amount: int, st: SwSt) -> bool {
    &&& st.rem >= 0 && 0 <= st.fee <= st.tin && st.tout >= 0
    &&& a.by_in ==> st.tin + st.rem == amount
    &&& !a.by_in ==> st.tout + st.rem <= amount
}
pub open spec fn sw_dir(a: SwArg, p: Pool, q: Pool) -> bool {
    pool_ok(q, sw_sp(a)) && (if a.xy { a.limit.0 <= q.sqrt_price.0 <= p.sqrt_price.0 && q.current_tick_index <= p.current_tick_index } else { p.sqrt_price.0 <= q.sqrt_price.0 <= a.limit.0 && p.current_tick_index <= q.current_tick_index })
}
pub proof fn lemma_sw_sums(a: SwArg, tr: Seq<SwRec>, st0: SwSt, st: SwSt, amount: int)
    requires sw_run(a, tr, st0, st), sw_sums(a, amount, st0)
    ensures sw_sums(a, amount, st)
    decreases tr.len()
{
    if tr.len() > 0 {
        let r = tr.last();
        lemma_sw_sums(a, tr.drop_last(), st0, r.pre, amount);
    }
}
pub proof fn lemma_sw_dir(a: SwArg, tr: Seq<SwRec>, st0: SwSt, st: SwSt)
    requires sw_run(a, tr, st0, st), pool_ok(st0.pool, sw_sp(a)), ticks_idx(a.s, a.k), if a.xy { a.limit.0 <= st0.pool.sqrt_price.0 && a.limit.0 <= MAXP() } else { st0.pool.sqrt_price.0 <= a.limit.0 && a.limit.0 >= MINP() }
    ensures sw_dir(a, st0.pool, st.pool)
    decreases tr.len()
{
    if tr.len() > 0 {
        let r = tr.last();
        lemma_sw_dir(a, tr.drop_last(), st0, r.pre);
        lemma_sw_step(a, r);
    }
}
pub proof fn lemma_sw_facts(a: SwArg, amount: int, tr: Seq<SwRec>, r: CalculateSwapResult)
    requires sw_done(a, amount, tr, r)
    ensures sw_facts(a, amount, r)
{
    lemma_sw_sums(a, tr, sw_start(a, amount), sw_end(r), amount);
    if pool_ok(a.s.pools[pkey(a.k)], sw_sp(a)) && ticks_idx(a.s, a.k) { lemma_sw_dir(a, tr, sw_start(a, amount), sw_end(r)); }
}
/// A05: what a completed swap guarantees to its caller
pub open spec fn sw_facts(a: SwArg, amount: int, r: CalculateSwapResult) -> bool {
    let p = a.s.pools[pkey(a.k)];
    &&& amount > 0 && r.amount_out.0 > 0
    &&& a.by_in ==> r.amount_in.0 == amount
    &&& !a.by_in ==> r.amount_out.0 <= amount
    &&& r.fee.0 <= r.amount_in.0
    &&& pool_ok(p, sw_sp(a)) && ticks_idx(a.s, a.k) ==> sw_dir(a, p, r.pool)
}
// ---- A06: a swap is a function of the stored state and its arguments ----
pub proof fn lemma_search_det(s: SV, k: PoolKey, t: int, sp: int, xy: bool, i: i32, init: bool, j: i32, jnit: bool)
    requires search_ok(s, k, t, sp, xy, i, init), search_ok(s, k, t, sp, xy, j, jnit), valid_tick(t, sp)
    ensures i == j, init == jnit
{
    if init && jnit { if i < j { assert(bit_set(s, k, i as int, sp)); assert(bit_set(s, k, j as int, sp)); } else if j < i { assert(bit_set(s, k, j as int, sp)); assert(bit_set(s, k, i as int, sp)); } }
    else if init { assert(bit_set(s, k, i as int, sp)); }
    else if jnit { assert(bit_set(s, k, j as int, sp)); }
}
pub proof fn lemma_lim_det(a: SwArg, t: int, lim: int, lt: Option<(i32, bool)>, lim2: int, lt2: Option<(i32, bool)>)
    requires sw_lim(a, t, lim, lt), sw_lim(a, t, lim2, lt2), valid_tick(t, sw_sp(a))
    ensures lim == lim2, lt == lt2
{
    reveal(closer_ok);
    let (i, init) = match lt { Some(x) => x, None => choose|i: i32, init: bool| #[trigger] search_ok(a.s, a.k, t, sw_sp(a), a.xy, i, init) && !before_limit(i as int, a.xy, a.limit.0 as int) };
    let (j, jnit) = match lt2 { Some(x) => x, None => choose|i: i32, init: bool| #[trigger] search_ok(a.s, a.k, t, sw_sp(a), a.xy, i, init) && !before_limit(i as int, a.xy, a.limit.0 as int) };
    lemma_search_det(a.s, a.k, t, sw_sp(a), a.xy, i, init, j, jnit);
}
pub proof fn lemma_add_fee_det(p: Pool, q: Pool, q2: Pool, amount: int, in_x: bool, rate: int)
    requires pool_add_fee(p, q, amount, in_x, rate), pool_add_fee(p, q2, amount, in_x, rate)
    ensures q == q2
{}
pub proof fn lemma_update_tick_det(p: Pool, q: Pool, q2: Pool, t: UpdatePoolTick, u: UpdatePoolTick, u2: UpdatePoolTick, res: SwapResult, limit: SqrtPrice, rem: int, by_in: bool, xy: bool, now: u64, rate: int, ft: FeeTier,
    added: int, added2: int, rem2: int, rem22: int, crossed: bool, crossed2: bool)
    requires update_tick_ok(p, q, t, u, res, limit, rem, by_in, xy, now, rate, ft, added, rem2, crossed), update_tick_ok(p, q2, t, u2, res, limit, rem, by_in, xy, now, rate, ft, added2, rem22, crossed2)
    ensures q == q2, u == u2, added == added2, rem2 == rem22, crossed == crossed2
{
    if !(t is NoTick || limit.0 != res.next_sqrt_price.0) && t is TickInitialized && by_in && rem != 0 && !crossed {
        let m = choose|m: Pool| pool_add_fee(p, m, rem, xy, rate) && q == (Pool { current_tick_index: q.current_tick_index, ..m });
        let m2 = choose|m: Pool| pool_add_fee(p, m, rem, xy, rate) && q2 == (Pool { current_tick_index: q2.current_tick_index, ..m });
        lemma_add_fee_det(p, m, m2, rem, xy, rate);
    }
}
pub proof fn lemma_step_det(a: SwArg, r: SwRec, r2: SwRec)
    requires sw_step(a, r), sw_step(a, r2), r.pre == r2.pre, valid_tick(r.pre.pool.current_tick_index as int, sw_sp(a))
    ensures r.post == r2.post
{
    lemma_lim_det(a, r.pre.pool.current_tick_index as int, r.lim.0 as int, r.lt, r2.lim.0 as int, r2.lt);
    assert(r.lim == r2.lim && r.res == r2.res && r.tu0 == r2.tu0);
    lemma_add_fee_det(r.pre.pool, r.mid, r2.mid, r.res.fee_amount.0 as int, a.xy, sw_rate(a));
    let rem1 = r.pre.rem - (if a.by_in { r.res.amount_in.0 + r.res.fee_amount.0 } else { r.res.amount_out.0 as int });
    lemma_update_tick_det(Pool { sqrt_price: r.res.next_sqrt_price, ..r.mid }, r.post.pool, r2.post.pool, r.tu0, r.tu1, r2.tu1, r.res, r.lim, rem1, a.by_in, a.xy, a.now, sw_rate(a), a.k.fee_tier,
        r.added, r2.added, r.post.rem, r2.post.rem, r.crossed, r2.crossed);
}
/// the state before step n (after the last one: st)
pub open spec fn sw_at(tr: Seq<SwRec>, st: SwSt, n: int) -> SwSt { if n < tr.len() { tr[n].pre } else { st } }
pub proof fn lemma_sw_prefix(a: SwArg, tr: Seq<SwRec>, st0: SwSt, st: SwSt, n: int)
    requires sw_run(a, tr, st0, st), 0 <= n <= tr.len()
    ensures sw_at(tr, st, 0) == st0, n < tr.len() ==> sw_step(a, tr[n]) && tr[n].post == sw_at(tr, st, n + 1), sw_run(a, tr.take(n), st0, sw_at(tr, st, n))
    decreases tr.len()
{
    if n < tr.len() {
        let d = tr.drop_last();
        lemma_sw_prefix(a, d, st0, tr.last().pre, n);
        assert(d.take(n) =~= tr.take(n));
        if tr.len() == 1 {} else { assert(tr[0] == d[0]); if n + 1 < tr.len() { assert(tr[n] == d[n]); if n + 1 < d.len() { assert(d[n + 1] == tr[n + 1]); } } }
    } else {
        assert(tr.take(n) =~= tr);
        if tr.len() > 0 { lemma_sw_prefix(a, tr.drop_last(), st0, tr.last().pre, tr.len() - 1); }
    }
}
pub proof fn lemma_sw_same(a: SwArg, tr: Seq<SwRec>, tr2: Seq<SwRec>, st0: SwSt, st: SwSt, st2: SwSt, n: int)
    requires sw_run(a, tr, st0, st), sw_run(a, tr2, st0, st2), 0 <= n <= tr.len(), n <= tr2.len(), pool_ok(st0.pool, sw_sp(a)), ticks_idx(a.s, a.k),
        if a.xy { a.limit.0 <= st0.pool.sqrt_price.0 && a.limit.0 <= MAXP() } else { st0.pool.sqrt_price.0 <= a.limit.0 && a.limit.0 >= MINP() }
    ensures sw_at(tr, st, n) == sw_at(tr2, st2, n)
    decreases n
{
    lemma_sw_prefix(a, tr, st0, st, 0); lemma_sw_prefix(a, tr2, st0, st2, 0);
    if n > 0 {
        lemma_sw_same(a, tr, tr2, st0, st, st2, n - 1);
        lemma_sw_prefix(a, tr, st0, st, n - 1); lemma_sw_prefix(a, tr2, st0, st2, n - 1);
        lemma_sw_dir(a, tr.take(n - 1), st0, sw_at(tr, st, n - 1));
        lemma_step_det(a, tr[n - 1], tr2[n - 1]);
    }
}
/// A06: two computations of the same swap on the same state agree in every result
pub proof fn lemma_swap_det(a: SwArg, amount: int, r: CalculateSwapResult, r2: CalculateSwapResult)
    requires sw_ok(a, amount, r), sw_ok(a, amount, r2), pool_ok(a.s.pools[pkey(a.k)], sw_sp(a)), ticks_idx(a.s, a.k)
    ensures sw_end(r) == sw_end(r2), r.amount_in == r2.amount_in, r.amount_out == r2.amount_out, r.start_sqrt_price == r2.start_sqrt_price, r.target_sqrt_price == r2.target_sqrt_price, r.fee == r2.fee, r.pool == r2.pool, r.ticks@ == r2.ticks@
{
    let tr = choose|tr: Seq<SwRec>| sw_done(a, amount, tr, r); let tr2 = choose|tr: Seq<SwRec>| sw_done(a, amount, tr, r2);
    let st0 = sw_start(a, amount); let (st, st2) = (sw_end(r), sw_end(r2));
    let n = imin(tr.len() as int, tr2.len() as int);
    lemma_sw_same(a, tr, tr2, st0, st, st2, n);
    lemma_sw_prefix(a, tr, st0, st, n); lemma_sw_prefix(a, tr2, st0, st2, n);
}
// ---- effects of an executed swap ----
pub open spec fn ticks_written(m: Map<Seq<u8>, Tick>, k: PoolKey, ts: Seq<Tick>) -> Map<Seq<u8>, Tick>
    decreases ts.len()
{ if ts.len() == 0 { m } else { ticks_written(m, k, ts.drop_last()).insert(tkey(k, ts.last().index), ts.last()) } }
pub open spec fn sw_store(s: SV, k: PoolKey, r: CalculateSwapResult) -> SV { SV { ticks: ticks_written(s.ticks, k, r.ticks@), pools: s.pools.insert(pkey(k), r.pool), ..s } }
pub open spec fn tok_in(k: PoolKey, xy: bool) -> Seq<u8> { if xy { k.token_x@ } else { k.token_y@ } }
pub open spec fn tok_out(k: PoolKey, xy: bool) -> Seq<u8> { if xy { k.token_y@ } else { k.token_x@ } }
/// the caller is charged exactly the input and paid exactly the output
pub open spec fn sw_msgs(k: PoolKey, xy: bool, r: CalculateSwapResult, info: MessageInfo, me: Seq<u8>) -> Seq<MV> {
    charge(tok_in(k, xy), addr_ok(tok_in(k, xy)), r.amount_in.0 as int, info.sender@, me, info.funds@) + pay(tok_out(k, xy), addr_ok(tok_out(k, xy)), r.amount_out.0 as int, info.sender@)
}
pub open spec fn swapped(a: SwArg, amount: int, r: CalculateSwapResult, t: SV, info: MessageInfo, me: Seq<u8>, m: Seq<MV>, m2: Seq<MV>) -> bool {
    &&& sw_ok(a, amount, r) && sw_facts(a, amount, r)
    &&& t == sw_store(a.s, a.k, r)
    &&& can_charge(tok_in(a.k, a.xy), addr_ok(tok_in(a.k, a.xy)), r.amount_in.0 as int, info.funds@)
    &&& m2 == m + sw_msgs(a.k, a.xy, r, info, me)
}
// ---- routes ----
pub open spec fn funds_drop(f: Seq<Coin>, d: Seq<u8>) -> Seq<Coin>
    decreases f.len()
{ if f.len() == 0 { Seq::<Coin>::empty() } else { let g = funds_drop(f.drop_last(), d); if f.last().denom@ == d { g } else { g.push(f.last()) } } }
pub open spec fn rt_limit(xy: bool) -> SqrtPrice { SqrtPrice((if xy { MINP() } else { MAXP() }) as u128) }
pub ghost struct RtSt { pub s: SV, pub amt: int, pub funds: Seq<Coin>, pub m: Seq<MV> }
pub ghost struct RtRec { pub pre: RtSt, pub post: RtSt, pub res: CalculateSwapResult, pub info: MessageInfo }
pub open spec fn rt_arg(s: SV, h: SwapHop, now: u64) -> SwArg { SwArg { s, k: h.pool_key, now, xy: h.x_to_y, by_in: true, limit: rt_limit(h.x_to_y) } }
/// one executed hop: an exact-input swap of what the previous hop paid out; its coins pay for no other hop
pub open spec fn rt_hop(h: SwapHop, r: RtRec, now: u64, sender: Seq<u8>, me: Seq<u8>) -> bool {
    &&& r.info.sender@ == sender && r.info.funds@ == r.pre.funds
    &&& swapped(rt_arg(r.pre.s, h, now), r.pre.amt, r.res, r.post.s, r.info, me, r.pre.m, r.post.m)
    &&& r.post.amt == r.res.amount_out.0
    &&& r.post.funds == funds_drop(r.pre.funds, tok_in(h.pool_key, h.x_to_y))
}
pub open spec fn rt_run(hs: Seq<SwapHop>, tr: Seq<RtRec>, now: u64, sender: Seq<u8>, me: Seq<u8>, st0: RtSt, st: RtSt) -> bool
    decreases hs.len()
{
    if hs.len() == 0 { tr.len() == 0 && st == st0 }
    else { tr.len() > 0 && rt_hop(hs.last(), tr.last(), now, sender, me) && tr.last().post == st && rt_run(hs.drop_last(), tr.drop_last(), now, sender, me, st0, tr.last().pre) }
}
pub open spec fn rt_ok(hs: Seq<SwapHop>, now: u64, sender: Seq<u8>, me: Seq<u8>, st0: RtSt, st: RtSt) -> bool { exists|tr: Seq<RtRec>| rt_run(hs, tr, now, sender, me, st0, st) }
pub proof fn lemma_rt_push(hs: Seq<SwapHop>, n: int, tr: Seq<RtRec>, rec: RtRec, now: u64, sender: Seq<u8>, me: Seq<u8>, st0: RtSt)
    requires 0 <= n < hs.len(), rt_run(hs.take(n), tr, now, sender, me, st0, rec.pre), rt_hop(hs[n], rec, now, sender, me)
    ensures rt_run(hs.take(n + 1), tr.push(rec), now, sender, me, st0, rec.post)
{ assert(tr.push(rec).drop_last() =~= tr); assert(hs.take(n + 1).drop_last() =~= hs.take(n)); }
/// a quoted route: the same swaps computed on the unchanged state
pub open spec fn rt_quote(hs: Seq<SwapHop>, tr: Seq<(int, CalculateSwapResult)>, s: SV, now: u64, amt0: int, amt: int) -> bool
    decreases hs.len()
{
    if hs.len() == 0 { tr.len() == 0 && amt == amt0 }
    else {
        &&& tr.len() > 0 && tr.last().1.amount_out.0 == amt
        &&& rt_quote_step(hs.last(), tr.last().1, s, now, tr.last().0)
        &&& rt_quote(hs.drop_last(), tr.drop_last(), s, now, amt0, tr.last().0)
    }
}
pub open spec fn rt_quote_step(h: SwapHop, r: CalculateSwapResult, s: SV, now: u64, x: int) -> bool { sw_ok(rt_arg(s, h, now), x, r) && sw_facts(rt_arg(s, h, now), x, r) }
pub open spec fn rt_quote_ok(hs: Seq<SwapHop>, s: SV, now: u64, amt0: int, amt: int) -> bool { exists|tr: Seq<(int, CalculateSwapResult)>| rt_quote(hs, tr, s, now, amt0, amt) }
pub proof fn lemma_quote_push(hs: Seq<SwapHop>, n: int, tr: Seq<(int, CalculateSwapResult)>, r: CalculateSwapResult, s: SV, now: u64, amt0: int, x: int)
    requires 0 <= n < hs.len(), rt_quote(hs.take(n), tr, s, now, amt0, x), rt_quote_step(hs[n], r, s, now, x)
    ensures rt_quote(hs.take(n + 1), tr.push((x, r)), s, now, amt0, r.amount_out.0 as int)
{ assert(tr.push((x, r)).drop_last() =~= tr); assert(hs.take(n + 1).drop_last() =~= hs.take(n)); }
// ---- NFT approvals ----
pub open spec fn appr_drop(f: Seq<Approval>, d: Seq<u8>) -> Seq<Approval>
    decreases f.len()
{ if f.len() == 0 { Seq::<Approval>::empty() } else { let g = appr_drop(f.drop_last(), d); if f.last().spender@ == d { g } else { g.push(f.last()) } } }
pub open spec fn appr_shown(f: Seq<Approval>, b: BlockInfo, all: bool) -> Seq<Approval>
    decreases f.len()
{ if f.len() == 0 { Seq::<Approval>::empty() } else { let g = appr_shown(f.drop_last(), b, all); if all || !f.last().expires.expired(b) { g.push(f.last()) } else { g } } }
/// who may approve: the owner, or an operator of the owner whose grant has not expired
pub open spec fn op_live(s: SV, owner: Seq<u8>, who: Seq<u8>, b: BlockInfo) -> bool { s.ops.contains_key((owner, who)) && !s.ops[(owner, who)].expired(b) }
pub open spec fn can_approve(s: SV, owner: Seq<u8>, who: Seq<u8>, b: BlockInfo) -> bool { who == owner || op_live(s, owner, who, b) }
/// who may send: additionally a spender with a live approval on the token
pub open spec fn can_send(s: SV, owner: Seq<u8>, who: Seq<u8>, b: BlockInfo, p: Position) -> bool {
    can_approve(s, owner, who, b) || exists|i: int| 0 <= i < p.approvals@.len() && (#[trigger] p.approvals@[i]).spender@ == who && !p.approvals@[i].expires.expired(b)
}
pub open spec fn owner_of(id: Seq<u8>) -> Seq<u8> { id.subrange(0, id.len() - 4) }
pub open spec fn approvals_updated(s: SV, t: SV, id: Seq<u8>, who: Seq<u8>, b: BlockInfo, spender: Seq<u8>, add: bool, ex: Option<Expiration>, p: Position) -> bool {
    let q = s.positions[id];
    let rest = appr_drop(q.approvals@, spender);
    &&& id.len() >= 4 && s.positions.contains_key(id) && can_approve(s, owner_of(id), who, b)
    &&& p == (Position { approvals: p.approvals, ..q })
    &&& if add { !ex.vdef().expired(b) && p.approvals@.len() == rest.len() + 1 && p.approvals@.drop_last() == rest && p.approvals@.last().spender@ == spender && p.approvals@.last().expires == ex.vdef() } else { p.approvals@ == rest }
    &&& t == (SV { positions: s.positions.insert(id, p), ..s })
}
/// removing from one list and appending to another
pub open spec fn pos_moved(s: SV, t: SV, from: Seq<u8>, i: int, to: Seq<u8>) -> bool {
    exists|m: SV, p: Position| pos_removed(s, m, from, i, s.positions[poskey(from, i)]) && p == (Position { approvals: p.approvals, ..s.positions[poskey(from, i)] }) && p.approvals@.len() == 0 && #[trigger] pos_added(m, t, to, p)
}
pub open spec fn coins_kept(v: Seq<Coin>, src: Seq<Coin>, n: int, d: Seq<u8>) -> bool { v == funds_drop(src.take(n), d) }
pub open spec fn appr_kept(v: Seq<Approval>, src: Seq<Approval>, n: int, d: Seq<u8>) -> bool { v == appr_drop(src.take(n), d) }
pub open spec fn appr_kept2(v: Seq<Approval>, src: Seq<Approval>, n: int, b: BlockInfo, all: bool) -> bool { v == appr_shown(src.take(n), b, all) }
} // verus!
} // mod vswap
