// Hand-written shim: TRUSTED. What the SDK uses besides the decimal types.
pub mod vext {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
verus! {
#[verifier::external_body]
pub struct String { s: std::string::String }
impl View for String { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Clone for String { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for String { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &String) -> bool { self@ == o@ } }
impl PartialEq for String { #[verifier::external_body] fn eq(&self, o: &String) -> bool { unimplemented!() } }
/// lexicographic order on bytes (Rust's order on strings)
pub open spec fn seq_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if a.len() == 0 { b.len() > 0 } else if b.len() == 0 { false }
    else if a[0] != b[0] { a[0] < b[0] } else { seq_lt(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
pub open spec fn seq_cmp(a: Seq<u8>, b: Seq<u8>) -> core::cmp::Ordering {
    if a == b { core::cmp::Ordering::Equal } else if seq_lt(a, b) { core::cmp::Ordering::Less } else { core::cmp::Ordering::Greater }
}
impl PartialOrdSpecImpl for String {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &String) -> Option<core::cmp::Ordering> { Some(seq_cmp(self@, o@)) }
}
impl PartialOrd for String { #[verifier::external_body] fn partial_cmp(&self, o: &String) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl String {
    #[verifier::external_body]
    pub fn default() -> (r: String) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
}
pub trait VUnwrapOr<T>: Sized {
    spec fn vor(self, d: T) -> T;
    fn vunwrap_or(self, d: T) -> (r: T) ensures r == self.vor(d);
}
impl<T> VUnwrapOr<T> for Option<T> {
    open spec fn vor(self, d: T) -> T { match self { Some(e) => e, None => d } }
    #[verifier::external_body]
    fn vunwrap_or(self, d: T) -> (r: T) { unimplemented!() }
}
impl<T, E> VUnwrapOr<T> for Result<T, E> {
    open spec fn vor(self, d: T) -> T { match self { Ok(e) => e, Err(_) => d } }
    #[verifier::external_body]
    fn vunwrap_or(self, d: T) -> (r: T) { unimplemented!() }
}
pub assume_specification<'a, T: Copy>[Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
/// what the caller passed in: decoded by serde, or a panic
#[verifier::external_body]
pub struct JsValue {}
pub uninterp spec fn js_is<T>(v: JsValue, t: T) -> bool;
#[verifier::external_body]
pub fn from_value<T>(v: JsValue) -> (r: Result<T, ()>) ensures r is Ok ==> js_is(v, r->Ok_0) { unimplemented!() }
pub trait VNone<T> { fn vnone_ref(&self) -> (r: Option<&T>) ensures r is None; }
impl<T> VNone<T> for Vec<T> { fn vnone_ref(&self) -> (r: Option<&T>) { None } }
/// std's HashMap as a finite map
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: std::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures (r is Some) == self@.contains_key(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
impl<K, V> Clone for HashMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the cause and trace of an error are text only
pub struct TrackableError {}
pub type TrackableResult<T> = Result<T, TrackableError>;
#[verifier::external_body]
pub fn verr() -> TrackableError { unimplemented!() }
#[verifier::external_body]
pub fn vstr() -> String { unimplemented!() }
} // verus!
} // mod vext
pub mod vpool {
use vstd::prelude::*;
use crate::prelude::*;
use crate::{FeeTier, LiquidityTick, Pool, UpdatePoolTick};
use crate::clamm::SwapResult;
use crate::types::sqrt_price::SqrtPrice;
verus! {
pub open spec fn tick_net(t: LiquidityTick) -> int { if t.sign { t.liquidity_change.0 as int } else { -(t.liquidity_change.0 as int) } }
/// change of active liquidity when a tick is crossed: upwards its net is added, downwards subtracted
pub open spec fn cross_delta(t: LiquidityTick, cur: int) -> int { if cur >= t.index { -tick_net(t) } else { tick_net(t) } }
/// the contract's update_tick_ok, on what the SDK keeps of a pool and of a tick
pub open spec fn update_tick_ok(p: Pool, q: Pool, t: UpdatePoolTick, u: UpdatePoolTick, result: SwapResult, limit: SqrtPrice, rem: int, by_in: bool, xy: bool, now: u64, ft: FeeTier,
    added: int, rem2: int, crossed: bool) -> bool
{
    &&& u == t
    &&& if t is NoTick || limit.0 != result.next_sqrt_price.0 {
        let i = tick_at(result.next_sqrt_price.0 as int, ft.tick_spacing as int);
        &&& added == 0 && rem2 == rem && !crossed
        &&& q == (Pool { current_tick_index: q.current_tick_index, ..p })
        &&& q.current_tick_index == (if xy && p.current_tick_index < i { p.current_tick_index as int } else { i })
    } else {
        let enough = enough_spec(rem, result.next_sqrt_price.0 as int, p.liquidity.0 as int, ft.fee.0 as int, by_in, xy);
        match t {
            UpdatePoolTick::TickInitialized(tk) => {
                &&& q.current_tick_index == (if xy && enough { tk.index - ft.tick_spacing } else { tk.index as int })
                &&& if !xy || enough {
                    &&& crossed && added == 0 && rem2 == rem
                    &&& q.liquidity.0 == p.liquidity.0 + cross_delta(tk, p.current_tick_index as int)
                    &&& q == (Pool { liquidity: q.liquidity, last_timestamp: now, current_tick_index: q.current_tick_index, ..p })
                } else {
                    &&& !crossed && rem2 == 0
                    &&& added == (if by_in { rem } else { 0 })
                    &&& q == (Pool { current_tick_index: q.current_tick_index, ..p })
                }
            }
            UpdatePoolTick::TickUninitialized(i) => {
                &&& added == 0 && rem2 == rem && !crossed
                &&& q == (Pool { current_tick_index: q.current_tick_index, ..p })
                &&& q.current_tick_index == (if xy && enough { i - ft.tick_spacing } else { i as int })
            }
            UpdatePoolTick::NoTick => false,
        }
    }
}
} // verus!
} // mod vpool
pub mod vstate {
use vstd::prelude::*;
use crate::prelude::*;
use crate::{PoolKey, Tickmap};
verus! {
pub ghost struct SV { pub bitmap: Map<u64, u64> }
pub open spec fn chunk_of(s: SV, k: PoolKey, c: int) -> u64 { if s.bitmap.contains_key(c as u64) { s.bitmap[c as u64] } else { 0 } }
/// a tick map is one pool's; the key plays no part
pub open spec fn nk() -> PoolKey { arbitrary() }
pub open spec fn tm(t: Tickmap) -> SV { SV { bitmap: t.bitmap@ } }
pub proof fn lemma_seq_total(a: Seq<u8>, b: Seq<u8>)
    ensures a == b || seq_lt(a, b) || seq_lt(b, a), !(seq_lt(a, b) && seq_lt(b, a)), seq_lt(a, b) ==> a != b
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { assert(a =~= b); } }
    else if b.len() == 0 {}
    else {
        let a1 = a.subrange(1, a.len() as int); let b1 = b.subrange(1, b.len() as int);
        lemma_seq_total(a1, b1);
        if a[0] == b[0] && a1 == b1 { assert(a =~= seq![a[0]] + a1); assert(b =~= seq![b[0]] + b1); }
    }
}
} // verus!
} // mod vstate
pub mod vswap {
use vstd::prelude::*;
use crate::prelude::*;
use crate::{CalculateSwapResult, FeeTier, LiquidityTick, Pool, Tickmap, UpdatePoolTick};
use crate::clamm::SwapResult;
use crate::types::sqrt_price::SqrtPrice;
verus! {
// A simulated swap as a sequence of steps: the contract's sw_step, without what the SDK does not keep (fee growth, the protocol's share).
pub ghost struct SwArg { pub t: Tickmap, pub ft: FeeTier, pub p: Pool, pub ticks: Seq<LiquidityTick>, pub xy: bool, pub by_in: bool, pub limit: SqrtPrice }
pub ghost struct SwSt { pub pool: Pool, pub rem: int, pub tin: int, pub tout: int, pub fee: int, pub ticks: Seq<LiquidityTick> }
pub ghost struct SwRec { pub pre: SwSt, pub lim: SqrtPrice, pub lt: Option<(i32, bool)>, pub res: SwapResult, pub tu: UpdatePoolTick, pub added: int, pub crossed: bool, pub post: SwSt }
pub open spec fn sw_sp(a: SwArg) -> int { a.ft.tick_spacing as int }
pub open spec fn sw_lim(a: SwArg, cur: int, lim: int, lt: Option<(i32, bool)>) -> bool {
    &&& sw_sp(a) > 0
    &&& cur % sw_sp(a) == 0 ==> closer_ok(tm(a.t), nk(), a.limit.0 as int, a.xy, cur, sw_sp(a), lim, lt)
    &&& match lt { None => lim == a.limit.0, Some((i, init)) => lim == tick_price(i as int) && before_limit(i as int, a.xy, a.limit.0 as int) && -MAXT() <= i <= MAXT() }
}
/// the first of the given ticks with this index
pub open spec fn tick_in(ts: Seq<LiquidityTick>, i: i32, t: LiquidityTick) -> bool {
    exists|j: int| 0 <= j < ts.len() && #[trigger] ts[j] == t && t.index == i && forall|m: int| 0 <= m < j ==> (#[trigger] ts[m]).index != i
}
pub open spec fn sw_step(a: SwArg, r: SwRec) -> bool {
    let p = r.pre.pool; let ft = a.ft;
    let (price, lim, l) = (p.sqrt_price.0 as int, r.lim.0 as int, p.liquidity.0 as int);
    let (ain, aout, fee) = (r.res.amount_in.0 as int, r.res.amount_out.0 as int, r.res.fee_amount.0 as int);
    let rem1 = r.pre.rem - (if a.by_in { ain + fee } else { aout });
    &&& r.pre.rem > 0 && rem1 >= 0 && r.post.rem >= 0 && r.added >= 0
    &&& sw_lim(a, p.current_tick_index as int, lim, r.lt)
    &&& r.res.next_sqrt_price.0 == step_next(price, lim, l, r.pre.rem, a.by_in, ft.fee.0 as int)
    &&& ain == step_in(price, lim, l, r.pre.rem, a.by_in, ft.fee.0 as int)
    &&& aout == step_out(price, lim, l, r.pre.rem, a.by_in, ft.fee.0 as int)
    &&& fee == step_fee(price, lim, l, r.pre.rem, a.by_in, ft.fee.0 as int)
    &&& r.res.next_sqrt_price.0 == a.limit.0 ==> rem1 == 0
    &&& match r.lt {
        None => r.tu is NoTick,
        Some((i, init)) => if init { r.tu is TickInitialized && tick_in(a.ticks, i, r.tu->TickInitialized_0) } else { r.tu == UpdatePoolTick::TickUninitialized(i) },
    }
    &&& update_tick_ok(Pool { sqrt_price: r.res.next_sqrt_price, ..p }, r.post.pool, r.tu, r.tu, r.res, r.lim, rem1, a.by_in, a.xy, p.last_timestamp, ft, r.added, r.post.rem, r.crossed)
    &&& r.post.tin == r.pre.tin + ain + fee + r.added && r.post.tout == r.pre.tout + aout && r.post.fee == r.pre.fee + fee
    &&& r.post.ticks == (if r.crossed { r.pre.ticks.push(r.tu->TickInitialized_0) } else { r.pre.ticks })
    &&& if a.xy { r.post.pool.current_tick_index > -max_tick(sw_sp(a)) } else { r.post.pool.current_tick_index < max_tick(sw_sp(a)) }
}
pub open spec fn sw_run(a: SwArg, tr: Seq<SwRec>, st0: SwSt, st: SwSt) -> bool
    decreases tr.len()
{
    if tr.len() == 0 { st == st0 } else { sw_step(a, tr.last()) && tr.last().post == st && sw_run(a, tr.drop_last(), st0, tr.last().pre) }
}
pub open spec fn sw_start(a: SwArg, amount: int) -> SwSt { SwSt { pool: a.p, rem: amount, tin: 0, tout: 0, fee: 0, ticks: Seq::<LiquidityTick>::empty() } }
pub open spec fn sw_at(a: SwArg, tr: Seq<SwRec>, amount: int, p: Pool, tin: int, tout: int, fee: int, ticks: Seq<LiquidityTick>) -> bool {
    sw_run(a, tr, sw_start(a, amount), SwSt { pool: p, rem: 0, tin, tout, fee, ticks })
}
/// a simulation without a flag is a complete run of the swap
pub open spec fn sw_ok(a: SwArg, amount: int, r: CalculateSwapResult) -> bool {
    &&& amount > 0
    &&& if a.xy { a.p.sqrt_price.0 > a.limit.0 && a.limit.0 <= MAXP() } else { a.p.sqrt_price.0 < a.limit.0 && a.limit.0 >= MINP() }
    &&& r.start_sqrt_price == a.p.sqrt_price
    &&& !r.global_insufficient_liquidity && !r.state_outdated && !r.max_ticks_crossed ==>
        exists|tr: Seq<SwRec>, q: Pool| #[trigger] sw_at(a, tr, amount, q, r.amount_in.0 as int, r.amount_out.0 as int, r.fee.0 as int, r.crossed_ticks@) && r.target_sqrt_price == q.sqrt_price
}
pub proof fn lemma_sw_push(a: SwArg, tr: Seq<SwRec>, st0: SwSt, rec: SwRec)
    requires sw_run(a, tr, st0, rec.pre), sw_step(a, rec)
    ensures sw_run(a, tr.push(rec), st0, rec.post)
{ assert(tr.push(rec).drop_last() =~= tr); }
} // verus!
} // mod vswap
pub mod vexec {}
pub mod vquery {}
