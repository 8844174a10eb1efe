// What the queries report (A19).
pub mod vquery {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use crate::prelude::*;
use crate::{FeeTier, Pool, PoolKey, Position, Tick, Config, LiquidityTick};
use crate::storage::tick::PositionTick;
use crate::interface::{PoolWithPoolKey, Approval, QuoteResult, CalculateSwapResult};
use crate::msg::QueryMsg;
use crate::entrypoints::common::TimeStampExt;
use crate::math::types::percentage::Percentage;
use crate::math::types::sqrt_price::SqrtPrice;
use crate::math::types::token_amount::TokenAmount;
verus! {
pub open spec fn key_of(a: Seq<u8>, b: Seq<u8>, ft: FeeTier, k: PoolKey) -> bool {
    k.fee_tier == ft && seq_lt(k.token_x@, k.token_y@) && ((k.token_x@ == a && k.token_y@ == b) || (k.token_x@ == b && k.token_y@ == a))
}
/// the pools of a pair, one per fee tier that has one
pub open spec fn pair_pools(s: SV, k: PoolKey, fts: Seq<FeeTier>) -> Seq<PoolWithPoolKey>
    decreases fts.len()
{
    if fts.len() == 0 { Seq::<PoolWithPoolKey>::empty() } else {
        let g = pair_pools(s, k, fts.drop_last());
        let q = PoolKey { fee_tier: fts.last(), ..k };
        if s.pools.contains_key(pkey(q)) { g.push(PoolWithPoolKey { pool: s.pools[pkey(q)], pool_key: q }) } else { g }
    }
}
pub open spec fn pos_tick(t: Tick) -> PositionTick { PositionTick { index: t.index, fee_growth_outside_x: t.fee_growth_outside_x, fee_growth_outside_y: t.fee_growth_outside_y, seconds_outside: t.seconds_outside } }
pub open spec fn tick_if(s: SV, k: PoolKey, i: i32) -> Seq<PositionTick> { if s.ticks.contains_key(tkey(k, i)) { seq![pos_tick(s.ticks[tkey(k, i)])] } else { Seq::<PositionTick>::empty() } }
/// lower and upper ticks of the positions from..to of an account, in order
pub open spec fn pos_ticks(s: SV, a: Seq<u8>, from: int, to: int) -> Seq<PositionTick>
    decreases to - from
{
    if to <= from { Seq::<PositionTick>::empty() } else {
        let g = pos_ticks(s, a, from, to - 1);
        if s.positions.contains_key(poskey(a, to - 1)) {
            let p = s.positions[poskey(a, to - 1)];
            g + tick_if(s, p.pool_key, p.lower_tick_index) + tick_if(s, p.pool_key, p.upper_tick_index)
        } else { g }
    }
}
/// cut after the first position that fills the page
pub open spec fn pos_ticks_page(s: SV, a: Seq<u8>, from: int, r: Seq<PositionTick>) -> bool {
    exists|to: int| from <= to <= plen_of(s, a) && r == #[trigger] pos_ticks(s, a, from, to)
        && (to == plen_of(s, a) || r.len() >= 372) && (to > from ==> pos_ticks(s, a, from, to - 1).len() < 372)
}
// ---- counting initialized ticks ----
pub open spec fn cnt(s: SV, k: PoolKey, a: int, b: int) -> int
    decreases b - a
{ if b <= a { 0 } else { cnt(s, k, a, b - 1) + (if bit_idx(s, k, b - 1) { 1int } else { 0 }) } }
pub open spec fn cntb(v: u64, a: int, b: int) -> int
    decreases b - a
{ if b <= a { 0 } else { cntb(v, a, b - 1) + (if bit_of(v, b - 1) { 1int } else { 0 }) } }
pub proof fn lemma_cntb_bound(v: u64, a: int, b: int) requires a <= b ensures 0 <= cntb(v, a, b) <= b - a decreases b - a { if b > a { lemma_cntb_bound(v, a, b - 1); } }
pub proof fn lemma_cnt_bound(s: SV, k: PoolKey, a: int, b: int) requires a <= b ensures 0 <= cnt(s, k, a, b) <= b - a decreases b - a { if b > a { lemma_cnt_bound(s, k, a, b - 1); } }
pub proof fn lemma_cnt_split(s: SV, k: PoolKey, a: int, m: int, b: int)
    requires a <= m <= b
    ensures cnt(s, k, a, b) == cnt(s, k, a, m) + cnt(s, k, m, b)
    decreases b - m
{ if m < b { lemma_cnt_split(s, k, a, m, b - 1); } }
/// within one chunk
pub proof fn lemma_cnt_chunk(s: SV, k: PoolKey, c: int, a: int, b: int)
    requires 0 <= a <= b <= 64, c >= 0
    ensures cnt(s, k, c * 64 + a, c * 64 + b) == cntb(chunk_of(s, k, c), a, b)
    decreases b - a
{ if a < b { lemma_cnt_chunk(s, k, c, a, b - 1); lemma_chunk(c, b - 1); } }
/// shifting and masking selects the bits lo..=hi
pub proof fn lemma_select(v: u64, lo: u8, hi: u8, n: int)
    requires lo <= hi < 64, 0 <= n <= 64
    ensures cntb((v >> lo) & (0xffff_ffff_ffff_ffffu64 >> ((63 - (hi - lo)) as u8)), 0, n) == cntb(v, lo as int, imin(lo + n, hi + 1))
    decreases n
{
    let w = (v >> lo) & (0xffff_ffff_ffff_ffffu64 >> ((63 - (hi - lo)) as u8));
    if n > 0 {
        lemma_select(v, lo, hi, n - 1);
        let i = (n - 1) as u64; let d = (63 - (hi - lo)) as u8;
        assert(lo <= hi && hi < 64 && i < 64 && d == sub(63, sub(hi, lo)) ==> ((((v >> lo) & (0xffff_ffff_ffff_ffffu64 >> d)) >> i) & 1 == 1) == (add(lo as u64, i) <= hi as u64 && (v >> add(lo as u64, i)) & 1 == 1)) by (bit_vector);
        assert(bit_of(w, n - 1) == (lo + n - 1 <= hi && bit_of(v, lo + n - 1)));
    }
}
pub proof fn lemma_bidx_small(t: int, sp: int) requires -MAXT() <= t <= MAXT(), sp > 0 ensures 0 <= bidx(t, sp) <= 500000 { lemma_div_nonincreasing(t + MAXT(), sp); lemma_div_pos_is_pos(t + MAXT(), sp); }
pub proof fn lemma_ones(v: u64, n: int) requires 0 <= n <= 64 ensures popcount(v, n) == cntb(v, 0, n) decreases n { if n > 0 { lemma_ones(v, n - 1); } }
pub proof fn lemma_select1(v: u64, lo: u8, hi: u8)
    requires lo <= hi < 64
    ensures popcount((v >> lo) & (0xffff_ffff_ffff_ffffu64 >> ((63 - (hi - lo)) as u8)), 64) == cntb(v, lo as int, hi + 1)
{ lemma_select(v, lo, hi, 64); lemma_ones((v >> lo) & (0xffff_ffff_ffff_ffffu64 >> ((63 - (hi - lo)) as u8)), 64); }
pub proof fn pos_ticks_next(t0: Seq<PositionTick>, t: Seq<PositionTick>, s: SV, a: Seq<u8>, from: int, n: int)
    requires pos_ticks_are(t0, s, a, from, n), from <= n, 
        t =~= t0 + (if s.positions.contains_key(poskey(a, n)) { tick_if(s, s.positions[poskey(a, n)].pool_key, s.positions[poskey(a, n)].lower_tick_index) + tick_if(s, s.positions[poskey(a, n)].pool_key, s.positions[poskey(a, n)].upper_tick_index) } else { Seq::<PositionTick>::empty() })
    ensures pos_ticks_are(t, s, a, from, n + 1)
{ assert(t =~= pos_ticks(s, a, from, n + 1)); }
// ---- pages of maps ----
pub open spec fn pools_listed(s: SV, r: Seq<PoolWithPoolKey>, ks: Seq<Seq<u8>>, n: int) -> bool {
    &&& r.len() == n && n <= ks.len()
    &&& forall|i: int| 0 <= i < n ==> pkey((#[trigger] r[i]).pool_key) == ks[i] && pk_ok(r[i].pool_key) && r[i].pool == s.pools[ks[i]]
}
pub open spec fn bytes_opt(k: Option<PoolKey>, v: Option<Vec<u8>>) -> bool { (k is Some) == (v is Some) && (k is Some ==> v->Some_0@ == pkey(k->Some_0)) }
/// the first page_limit(limit) pools after the given key, in key order
pub open spec fn pools_page(s: SV, limit: Option<u32>, after: Option<PoolKey>, r: Seq<PoolWithPoolKey>) -> bool {
    exists|ks: Seq<Seq<u8>>, b: Option<Vec<u8>>| bytes_opt(after, b) && #[trigger] scan_ok(has_key(s.pools), b, ks) && pools_listed(s, r, ks, imin(page_limit(limit), ks.len() as int))
}
pub open spec fn tokens_page(s: SV, limit: Option<u32>, after: Option<Vec<u8>>, r: Seq<Vec<u8>>) -> bool {
    exists|ks: Seq<Seq<u8>>| #[trigger] scan_ok(has_key(s.positions), after, ks) && bytes_of(r) == ks.take(imin(page_limit(limit), ks.len() as int))
}
pub open spec fn vec_pre(r: Seq<Vec<u8>>, s: Seq<Vec<u8>>, n: int) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] r[i] == s[i] }
// ---- bitmap chunks ----
pub open spec fn chunks_of(s: SV, k: PoolKey, cs: Seq<u16>) -> Seq<(u16, u64)>
    decreases cs.len()
{
    if cs.len() == 0 { Seq::<(u16, u64)>::empty() } else {
        let g = chunks_of(s, k, cs.drop_last());
        if g.len() < 1638 && s.bitmap.contains_key(bkey(cs.last() as int, k)) { g.push((cs.last(), s.bitmap[bkey(cs.last() as int, k)])) } else { g }
    }
}
pub proof fn lemma_chunks_full(s: SV, k: PoolKey, cs: Seq<u16>, n: int)
    requires 0 <= n <= cs.len(), chunks_of(s, k, cs.take(n)).len() >= 1638
    ensures chunks_of(s, k, cs) == chunks_of(s, k, cs.take(n))
    decreases cs.len() - n
{
    if n == cs.len() { assert(cs.take(n) =~= cs); }
    else { assert(cs.take(n + 1).drop_last() =~= cs.take(n)); lemma_chunks_full(s, k, cs, n + 1); }
}
pub open spec fn dirseq(a: int, b: int, rev: bool) -> Seq<u16> { if rev { range_seq(a, b).reverse() } else { range_seq(a, b) } }
pub open spec fn liq_tick(t: Tick) -> LiquidityTick { LiquidityTick { index: t.index, liquidity_change: t.liquidity_change, sign: t.sign } }
pub open spec fn liq_ticks(s: SV, k: PoolKey, r: Seq<LiquidityTick>, ix: Seq<i32>, n: int) -> bool {
    r.len() == n && n <= ix.len() && forall|i: int| 0 <= i < n ==> s.ticks.contains_key(tkey(k, #[trigger] ix[i])) && r[i] == liq_tick(s.ticks[tkey(k, ix[i])])
}
/// operators of an owner: those shown, in key order, up to the limit
pub open spec fn ops_shown(s: SV, o: Seq<u8>, ks: Seq<Seq<u8>>, b: BlockInfo, all: bool, n: int, lim: int) -> Seq<(Seq<u8>, Expiration)>
    decreases n
{
    if n <= 0 { Seq::<(Seq<u8>, Expiration)>::empty() } else {
        let g = ops_shown(s, o, ks, b, all, n - 1, lim);
        if g.len() < lim && (all || !s.ops[(o, ks[n - 1])].expired(b)) { g.push((ks[n - 1], s.ops[(o, ks[n - 1])])) } else { g }
    }
}
pub open spec fn appr_pairs(r: Seq<Approval>) -> Seq<(Seq<u8>, Expiration)> { r.map_values(|a: Approval| (a.spender@, a.expires)) }
pub open spec fn addr_bound(a: Option<Addr>, v: Option<Vec<u8>>) -> bool { (a is Some) == (v is Some) && (a is Some ==> v->Some_0@ == a->Some_0@) }
pub open spec fn ops_page(s: SV, o: Seq<u8>, b: BlockInfo, all: bool, after: Option<Addr>, limit: Option<u32>, r: Seq<Approval>) -> bool {
    exists|ks: Seq<Seq<u8>>, bd: Option<Vec<u8>>| addr_bound(after, bd) && #[trigger] scan_ok(has_op(s, o), bd, ks)
        && appr_pairs(r) == ops_shown(s, o, ks, b, all, ks.len() as int, page_limit(limit))
}
pub proof fn lemma_ops_full(s: SV, o: Seq<u8>, ks: Seq<Seq<u8>>, b: BlockInfo, all: bool, n: int, m: int, lim: int)
    requires 0 <= n <= m, ops_shown(s, o, ks, b, all, n, lim).len() >= lim
    ensures ops_shown(s, o, ks, b, all, m, lim) == ops_shown(s, o, ks, b, all, n, lim)
    decreases m - n
{ if n < m { lemma_ops_full(s, o, ks, b, all, n, m - 1, lim); } }
pub open spec fn appr_are(r: Seq<Approval>, s: SV, o: Seq<u8>, ks: Seq<Seq<u8>>, b: BlockInfo, all: bool, n: int, lim: int) -> bool { appr_pairs(r) =~= ops_shown(s, o, ks, b, all, n, lim) }
pub proof fn lemma_ops_full2(s: SV, o: Seq<u8>, ks: Seq<Seq<u8>>, b: BlockInfo, all: bool, n: int, m: int, lim: int)
    requires 0 <= n <= m, n == m || ops_shown(s, o, ks, b, all, n, lim).len() >= lim
    ensures ops_shown(s, o, ks, b, all, m, lim) == ops_shown(s, o, ks, b, all, n, lim)
{ if n < m { lemma_ops_full(s, o, ks, b, all, n, m, lim); } }
pub open spec fn quoted(s: SV, env: Env, k: PoolKey, xy: bool, amount: TokenAmount, by_in: bool, limit: SqrtPrice, q: QuoteResult) -> bool {
    exists|r: CalculateSwapResult| #[trigger] sw_ok(sw_arg(s, env, k, xy, by_in, limit), amount.0 as int, r) && sw_facts(sw_arg(s, env, k, xy, by_in, limit), amount.0 as int, r)
        && q.amount_in == r.amount_in && q.amount_out == r.amount_out && q.target_sqrt_price == r.pool.sqrt_price && q.ticks == r.ticks
}
pub open spec fn pools_kept(v: Seq<PoolWithPoolKey>, s: SV, k: PoolKey, f: Seq<FeeTier>) -> bool { v == pair_pools(s, k, f) }
pub open spec fn pos_ticks_are(v: Seq<PositionTick>, s: SV, a: Seq<u8>, from: int, to: int) -> bool { v == pos_ticks(s, a, from, to) }
pub open spec fn positions_page(s: SV, a: Seq<u8>, limit: Option<u32>, offset: Option<u32>, r: Seq<Position>) -> bool {
    r.len() == page_len(s, a, limit, offset) && positions_are(s, a, page_from(offset), r)
}
pub open spec fn got_pool(s: SV, a: Seq<u8>, b: Seq<u8>, ft: FeeTier, x: Pool) -> bool { exists|k: PoolKey| #[trigger] key_of(a, b, ft, k) && s.pools.contains_key(pkey(k)) && x == s.pools[pkey(k)] }
pub open spec fn got_pair(s: SV, a: Seq<u8>, b: Seq<u8>, x: Seq<PoolWithPoolKey>) -> bool { exists|k: PoolKey| #[trigger] key_of(a, b, k.fee_tier, k) && x == pair_pools(s, k, cfg(s).fee_tiers@) }
pub open spec fn tick_map(s: SV, k: PoolKey, lo: int, hi: int, rev: bool, x: Seq<(u16, u64)>) -> bool {
    let sp = k.fee_tier.tick_spacing as int;
    x == chunks_of(s, k, dirseq(bidx(lo, sp) / 64, imin(bidx((MAXT() / sp) * sp, sp) / 64, bidx(hi, sp) / 64) + 1, rev))
}
pub open spec fn owner_info(s: SV, env: Env, id: Seq<u8>, all: bool, x: crate::interface::OwnerOfResponse) -> bool {
    id.len() >= 4 && s.positions.contains_key(id) && x.owner@ == owner_of(id) && x.approvals@ == appr_shown(s.positions[id].approvals@, env.block, all)
}
pub open spec fn or_false(o: Option<bool>) -> bool { o is Some && o->Some_0 }
/// the reply is the encoding of a value of this type
pub open spec fn enc<T>(out: Seq<u8>) -> bool { out == vencode(vdecode::<T>(out)) }
/// what a successful query answers
pub open spec fn answered(s: SV, env: Env, msg: QueryMsg, out: Seq<u8>) -> bool {
    match msg {
        QueryMsg::Admin {} => enc::<Addr>(out) && s.config is Some && vdecode::<Addr>(out) == cfg(s).admin,
        QueryMsg::ProtocolFee {} => enc::<Percentage>(out) && s.config is Some && vdecode::<Percentage>(out) == cfg(s).protocol_fee,
        QueryMsg::Position { owner_id, index } => enc::<Position>(out) && s.positions.contains_key(poskey(owner_id@, index as int)) && vdecode::<Position>(out) == s.positions[poskey(owner_id@, index as int)],
        QueryMsg::Positions { owner_id, limit, offset } => enc::<Vec<Position>>(out) && positions_page(s, owner_id@, limit, offset, vdecode::<Vec<Position>>(out)@),
        QueryMsg::FeeTierExist { fee_tier } => enc::<bool>(out) && s.config is Some && vdecode::<bool>(out) == cfg(s).fee_tiers@.contains(fee_tier),
        QueryMsg::Pool { token_0, token_1, fee_tier } => enc::<Pool>(out) && got_pool(s, token_0@, token_1@, fee_tier, vdecode::<Pool>(out)),
        QueryMsg::Pools { limit, start_after } => enc::<Vec<PoolWithPoolKey>>(out) && pools_page(s, limit, start_after, vdecode::<Vec<PoolWithPoolKey>>(out)@),
        QueryMsg::Tick { key, index } => enc::<Tick>(out) && s.ticks.contains_key(tkey(key, index)) && vdecode::<Tick>(out) == s.ticks[tkey(key, index)],
        QueryMsg::IsTickInitialized { key, index } => enc::<bool>(out) && index as int % (key.fee_tier.tick_spacing as int) == 0 && vdecode::<bool>(out) == bit_set(s, key, index as int, key.fee_tier.tick_spacing as int),
        QueryMsg::FeeTiers {} => enc::<Vec<FeeTier>>(out) && s.config is Some && vdecode::<Vec<FeeTier>>(out)@ == cfg(s).fee_tiers@,
        QueryMsg::PositionTicks { owner, offset } => enc::<Vec<PositionTick>>(out) && offset <= plen_of(s, owner@) && pos_ticks_page(s, owner@, offset as int, vdecode::<Vec<PositionTick>>(out)@),
        QueryMsg::UserPositionAmount { owner } => enc::<u32>(out) && vdecode::<u32>(out) == plen_of(s, owner@),
        QueryMsg::TickMap { pool_key, lower_tick_index, upper_tick_index, x_to_y } => enc::<Vec<(u16, u64)>>(out) && tick_map(s, pool_key, lower_tick_index as int, upper_tick_index as int, x_to_y, vdecode::<Vec<(u16, u64)>>(out)@),
        QueryMsg::LiquidityTicks { pool_key, tick_indexes } => enc::<Vec<LiquidityTick>>(out) && tick_indexes@.len() <= 780 && liq_ticks(s, pool_key, vdecode::<Vec<LiquidityTick>>(out)@, tick_indexes@, tick_indexes@.len() as int),
        QueryMsg::LiquidityTicksAmount { pool_key, lower_tick, upper_tick } => enc::<u32>(out) && valid_tick(lower_tick as int, pool_key.fee_tier.tick_spacing as int) && valid_tick(upper_tick as int, pool_key.fee_tier.tick_spacing as int) && lower_tick <= upper_tick
            && vdecode::<u32>(out) == cnt(s, pool_key, bidx(lower_tick as int, pool_key.fee_tier.tick_spacing as int), bidx(upper_tick as int, pool_key.fee_tier.tick_spacing as int) + 1),
        QueryMsg::PoolsForPair { token_0, token_1 } => enc::<Vec<PoolWithPoolKey>>(out) && got_pair(s, token_0@, token_1@, vdecode::<Vec<PoolWithPoolKey>>(out)@),
        QueryMsg::Quote { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => enc::<QuoteResult>(out) && quoted(s, env, pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit, vdecode::<QuoteResult>(out)),
        QueryMsg::QuoteRoute { amount_in, swaps } => enc::<TokenAmount>(out) && rt_quote_ok(swaps@, s, env.block.time.millis_spec(), amount_in.0 as int, vdecode::<TokenAmount>(out).0 as int),
        QueryMsg::OwnerOf { token_id, include_expired } => enc::<crate::interface::OwnerOfResponse>(out) && owner_info(s, env, token_id@, or_false(include_expired), vdecode::<crate::interface::OwnerOfResponse>(out)),
        QueryMsg::ApprovedForAll { owner, include_expired, start_after, limit } => enc::<crate::interface::ApprovedForAllResponse>(out) && ops_page(s, owner@, env.block, or_false(include_expired), start_after, limit, vdecode::<crate::interface::ApprovedForAllResponse>(out).operators@),
        QueryMsg::NftInfo { token_id } => enc::<crate::interface::NftInfoResponse>(out) && s.positions.contains_key(token_id@) && vdecode::<crate::interface::NftInfoResponse>(out).extension == s.positions[token_id@],
        QueryMsg::AllNftInfo { token_id, include_expired } => enc::<crate::interface::AllNftInfoResponse>(out) && owner_info(s, env, token_id@, or_false(include_expired), vdecode::<crate::interface::AllNftInfoResponse>(out).access) && vdecode::<crate::interface::AllNftInfoResponse>(out).info.extension == s.positions[token_id@],
        QueryMsg::Tokens { owner, start_after, limit } => enc::<crate::interface::TokensResponse>(out) && vdecode::<crate::interface::TokensResponse>(out).tokens@.len() == page_len(s, owner@, limit, start_after) && keys_from(vdecode::<crate::interface::TokensResponse>(out).tokens@, owner@, page_from(start_after)),
        QueryMsg::AllTokens { start_after, limit } => enc::<crate::interface::TokensResponse>(out) && tokens_page(s, limit, start_after, vdecode::<crate::interface::TokensResponse>(out).tokens@),
    }
}
} // verus!
} // mod vquery
