// What each message does to the state and which transfers it makes (A07-A15, A20).
pub mod vexec {
use vstd::prelude::*;
use crate::prelude::*;
use crate::{FeeTier, Pool, PoolKey, Position, Tick, Config};
use crate::interface::{CalculateSwapResult, SwapHop};
use crate::msg::{ExecuteMsg, InstantiateMsg, NftExtensionMsg};
use crate::entrypoints::common::TimeStampExt;
use crate::math::types::liquidity::Liquidity;
use crate::math::types::percentage::Percentage;
use crate::math::types::sqrt_price::SqrtPrice;
use crate::math::types::token_amount::TokenAmount;
verus! {
pub open spec fn cfg(s: SV) -> Config { s.config->Some_0 }
/// a minimum: the expectation less the slippage, rounded up
pub open spec fn min_out(e: int, sl: int) -> int { cdiv(e * (E12() - sl), E12()) }
pub open spec fn is_admin(s: SV, who: Seq<u8>) -> bool { s.config is Some && cfg(s).admin@ == who }
/// only the admin, and nothing but the named setting
pub open spec fn admin_changed(s: SV, t: SV, who: Seq<u8>, new: Seq<u8>) -> bool {
    is_admin(s, who) && t == (SV { config: Some(Config { admin: cfg(t).admin, ..cfg(s) }), ..s }) && cfg(t).admin@ == new
}
pub open spec fn protocol_fee_changed(s: SV, t: SV, who: Seq<u8>, f: Percentage) -> bool {
    is_admin(s, who) && t == (SV { config: Some(Config { protocol_fee: f, ..cfg(s) }), ..s })
}
pub open spec fn receiver_changed(s: SV, t: SV, who: Seq<u8>, k: PoolKey, to: Seq<u8>) -> bool {
    let p = s.pools[pkey(k)]; let q = t.pools[pkey(k)];
    &&& is_admin(s, who) && s.pools.contains_key(pkey(k))
    &&& q == (Pool { fee_receiver: q.fee_receiver, ..p }) && q.fee_receiver@ == to
    &&& t == (SV { pools: s.pools.insert(pkey(k), q), ..s })
}
/// the pool's fee receiver is paid both protocol counters, which restart at zero
pub open spec fn pay2(k: PoolKey, x: int, y: int, to: Seq<u8>) -> Seq<MV> { pay(k.token_x@, addr_ok(k.token_x@), x, to) + pay(k.token_y@, addr_ok(k.token_y@), y, to) }
pub open spec fn charge2(k: PoolKey, x: int, y: int, from: Seq<u8>, me: Seq<u8>, f: Seq<Coin>) -> Seq<MV> { charge(k.token_x@, addr_ok(k.token_x@), x, from, me, f) + charge(k.token_y@, addr_ok(k.token_y@), y, from, me, f) }
pub open spec fn can_charge2(k: PoolKey, x: int, y: int, f: Seq<Coin>) -> bool { can_charge(k.token_x@, addr_ok(k.token_x@), x, f) && can_charge(k.token_y@, addr_ok(k.token_y@), y, f) }
pub open spec fn protocol_withdrawn(s: SV, t: SV, who: Seq<u8>, k: PoolKey, m: Seq<MV>) -> bool {
    let p = s.pools[pkey(k)];
    &&& s.pools.contains_key(pkey(k)) && p.fee_receiver@ == who
    &&& t == (SV { pools: s.pools.insert(pkey(k), Pool { fee_protocol_token_x: TokenAmount(0), fee_protocol_token_y: TokenAmount(0), ..p }), ..s })
    &&& m == pay2(k, p.fee_protocol_token_x.0 as int, p.fee_protocol_token_y.0 as int, who)
}
// ---- pools and fee tiers ----
pub open spec fn pool_created(s: SV, t: SV, now: u64, a: Seq<u8>, b: Seq<u8>, ft: FeeTier, price: SqrtPrice, tick: i32, k: PoolKey) -> bool {
    let q = t.pools[pkey(k)];
    &&& s.config is Some && cfg(s).fee_tiers@.contains(ft) && valid_tick(tick as int, ft.tick_spacing as int)
    &&& k.fee_tier == ft && seq_lt(k.token_x@, k.token_y@) && ((k.token_x@ == a && k.token_y@ == b) || (k.token_x@ == b && k.token_y@ == a))
    &&& pk_ok(k) && !s.pools.contains_key(pkey(k)) && price_in_tick(tick as int, ft.tick_spacing as int, price.0 as int)
    &&& pool_new(q, price, tick, now, cfg(s).admin@)
    &&& t == (SV { pools: s.pools.insert(pkey(k), q), ..s })
}
pub open spec fn tier_added(s: SV, t: SV, who: Seq<u8>, ft: FeeTier) -> bool {
    &&& is_admin(s, who) && 1 <= ft.tick_spacing <= 100 && ft.fee.0 < E12() && !cfg(s).fee_tiers@.contains(ft)
    &&& cfg(t).fee_tiers@ == cfg(s).fee_tiers@.push(ft)
    &&& t == (SV { config: Some(Config { fee_tiers: cfg(t).fee_tiers, ..cfg(s) }), ..s })
}
pub open spec fn tier_removed(s: SV, t: SV, who: Seq<u8>, ft: FeeTier) -> bool {
    &&& is_admin(s, who) && cfg(s).fee_tiers@.contains(ft)
    &&& exists|i: int| 0 <= i < cfg(s).fee_tiers@.len() && cfg(s).fee_tiers@[i] == ft && cfg(t).fee_tiers@ == #[trigger] cfg(s).fee_tiers@.remove(i)
    &&& t == (SV { config: Some(Config { fee_tiers: cfg(t).fee_tiers, ..cfg(s) }), ..s })
}
// ---- positions ----
pub ghost struct PosArg { pub k: PoolKey, pub lower: i32, pub upper: i32, pub delta: int, pub slo: int, pub shi: int, pub now: u64, pub height: u64, pub who: Seq<u8>, pub me: Seq<u8>, pub funds: Seq<Coin> }
pub ghost struct PosW { pub s1: SV, pub s2: SV, pub lo: Tick, pub up: Tick, pub lo2: Tick, pub up2: Tick, pub p: Pool, pub p2: Pool, pub pos: Position, pub pos2: Position, pub x: int, pub y: int }
/// an existing tick is taken, a missing one created
pub open spec fn tick_got(s: SV, t: SV, k: PoolKey, i: i32, now: u64, tk: Tick) -> bool {
    if s.ticks.contains_key(tkey(k, i)) { t == s && tk == s.ticks[tkey(k, i)] } else { tick_created(s, t, k, i, now, tk) }
}
pub open spec fn two_ticks(m: Map<Seq<u8>, Tick>, k: PoolKey, a: Tick, b: Tick) -> Map<Seq<u8>, Tick> { m.insert(tkey(k, a.index), a).insert(tkey(k, b.index), b) }
/// (stored ticks carry the index of their key, so a position's two ticks differ)
pub open spec fn two_written(m: Map<Seq<u8>, Tick>, n: Map<Seq<u8>, Tick>, k: PoolKey, a: Tick, b: Tick) -> bool { a.index != b.index ==> n == two_ticks(m, k, a, b) }
pub open spec fn pos_created_w(s: SV, t: SV, a: PosArg, w: PosW, m: Seq<MV>) -> bool {
    &&& a.delta != 0 && a.lower != a.upper && pk_ok(a.k) && s.pools.contains_key(pkey(a.k)) && w.p == s.pools[pkey(a.k)]
    &&& tick_got(s, w.s1, a.k, a.lower, a.now, w.lo) && tick_got(w.s1, w.s2, a.k, a.upper, a.now, w.up)
    &&& a.slo <= w.p.sqrt_price.0 <= a.shi
    &&& position_new(w.pos, a.k, w.lo.index, w.up.index, a.height)
    &&& modify_ok(w.pos, w.pos2, w.p, w.p2, w.lo, w.lo2, w.up, w.up2, a.delta, true, a.now, a.k.fee_tier.tick_spacing as int)
    &&& w.x == amount_x_spec(w.p.current_tick_index as int, w.p.sqrt_price.0 as int, a.delta, true, w.up.index as int, w.lo.index as int)
    &&& w.y == amount_y_spec(w.p.current_tick_index as int, w.p.sqrt_price.0 as int, a.delta, true, w.up.index as int, w.lo.index as int)
    &&& pos_added(SV { pools: s.pools.insert(pkey(a.k), w.p2), ..w.s2 }, SV { ticks: w.s2.ticks, ..t }, a.who, w.pos2)
    &&& two_written(w.s2.ticks, t.ticks, a.k, w.lo2, w.up2)
    &&& can_charge2(a.k, w.x, w.y, a.funds)
    &&& m == charge2(a.k, w.x, w.y, a.who, a.me, a.funds)
}
pub open spec fn pos_created(s: SV, t: SV, a: PosArg, m: Seq<MV>) -> bool { exists|w: PosW| pos_created_w(s, t, a, w, m) }
/// the loaded parts of an existing position
pub open spec fn pos_loaded(s: SV, who: Seq<u8>, i: int, w: PosW) -> bool {
    &&& s.positions.contains_key(poskey(who, i)) && w.pos == s.positions[poskey(who, i)]
    &&& s.ticks.contains_key(tkey(w.pos.pool_key, w.pos.lower_tick_index)) && w.lo == s.ticks[tkey(w.pos.pool_key, w.pos.lower_tick_index)]
    &&& s.ticks.contains_key(tkey(w.pos.pool_key, w.pos.upper_tick_index)) && w.up == s.ticks[tkey(w.pos.pool_key, w.pos.upper_tick_index)]
    &&& pk_ok(w.pos.pool_key) && s.pools.contains_key(pkey(w.pos.pool_key)) && w.p == s.pools[pkey(w.pos.pool_key)]
}
/// claiming pays exactly what is owed and nothing stays owed
pub open spec fn fee_claimed_w(s: SV, t: SV, who: Seq<u8>, i: int, now: u64, w: PosW, m: Seq<MV>) -> bool {
    let k = w.pos.pool_key;
    &&& pos_loaded(s, who, i, w) && i < plen_of(s, who)
    &&& modify_ok(w.pos, w.pos2, w.p, w.p2, w.lo, w.lo2, w.up, w.up2, 0, true, now, k.fee_tier.tick_spacing as int)
    &&& t == (SV { pools: s.pools.insert(pkey(k), w.p2), positions: s.positions.insert(poskey(who, i), Position { tokens_owed_x: TokenAmount(0), tokens_owed_y: TokenAmount(0), ..w.pos2 }), ticks: t.ticks, ..s }) && two_written(s.ticks, t.ticks, k, w.up2, w.lo2)
    &&& m == pay2(k, w.pos2.tokens_owed_x.0 as int, w.pos2.tokens_owed_y.0 as int, who)
}
pub open spec fn fee_claimed(s: SV, t: SV, who: Seq<u8>, i: int, now: u64, m: Seq<MV>) -> bool { exists|w: PosW| fee_claimed_w(s, t, who, i, now, w, m) }
/// a tick no position references any more disappears, with its bit
pub open spec fn tick_put(s: SV, t: SV, k: PoolKey, i: i32, tk: Tick) -> bool {
    if tk.liquidity_gross.0 == 0 { tick_removed(s, t, k, tk.index) } else { s.ticks.contains_key(tkey(k, i)) && t == (SV { ticks: s.ticks.insert(tkey(k, i), tk), ..s }) }
}
/// closing pays the position's share at the current price plus what is owed
pub open spec fn pos_closed_w(s: SV, t: SV, who: Seq<u8>, i: int, now: u64, w: PosW, m: Seq<MV>) -> bool {
    let k = w.pos.pool_key;
    &&& pos_loaded(s, who, i, w)
    &&& modify_ok(w.pos, w.pos2, w.p, w.p2, w.lo, w.lo2, w.up, w.up2, w.pos.liquidity.0 as int, false, now, k.fee_tier.tick_spacing as int)
    &&& w.x == amount_x_spec(w.p.current_tick_index as int, w.p.sqrt_price.0 as int, w.pos.liquidity.0 as int, false, w.up.index as int, w.lo.index as int) + w.pos2.tokens_owed_x.0
    &&& w.y == amount_y_spec(w.p.current_tick_index as int, w.p.sqrt_price.0 as int, w.pos.liquidity.0 as int, false, w.up.index as int, w.lo.index as int) + w.pos2.tokens_owed_y.0
    &&& ({ &&& tick_put(SV { pools: s.pools.insert(pkey(k), w.p2), ..s }, w.s1, k, w.pos.lower_tick_index, w.lo2)
           &&& tick_put(w.s1, w.s2, k, w.pos.upper_tick_index, w.up2) }
      || { &&& tick_put(SV { pools: s.pools.insert(pkey(k), w.p2), ..s }, w.s1, k, w.pos.upper_tick_index, w.up2)
           &&& tick_put(w.s1, w.s2, k, w.pos.lower_tick_index, w.lo2) })
    &&& pos_removed(w.s2, t, who, i, w.pos)
    &&& m == pay2(k, w.x, w.y, who)
}
pub open spec fn pos_closed(s: SV, t: SV, who: Seq<u8>, i: int, now: u64, m: Seq<MV>) -> bool { exists|w: PosW| pos_closed_w(s, t, who, i, now, w, m) }
// ---- positions as NFTs ----
pub open spec fn nft_moved(s: SV, t: SV, id: Seq<u8>, who: Seq<u8>, b: BlockInfo, to: Seq<u8>) -> bool {
    &&& id.len() >= 4 && s.positions.contains_key(id) && can_send(s, owner_of(id), who, b, s.positions[id])
    &&& exists|i: u32| id == poskey(owner_of(id), i as int) && #[trigger] pos_moved(s, t, owner_of(id), i as int, to)
}
/// burning closes the position, and pays its owner
pub open spec fn nft_burned(s: SV, t: SV, id: Seq<u8>, who: Seq<u8>, b: BlockInfo, now: u64, m: Seq<MV>) -> bool {
    &&& id.len() >= 4 && s.positions.contains_key(id) && can_send(s, owner_of(id), who, b, s.positions[id])
    &&& exists|i: u32| id == poskey(owner_of(id), i as int) && #[trigger] pos_closed(s, t, owner_of(id), i as int, now, m)
}
/// the receiving contract is told who sent which token, and gets no coins
pub open spec fn nft_notice(m: Seq<CosmosMsg>, to: Seq<u8>, id: Seq<u8>, from: Seq<u8>, msg: Option<Binary>) -> bool {
    &&& m.len() == 1 && m[0] is Wasm
    &&& match m[0]->Wasm_0 { WasmMsg::Execute { contract_addr, msg: b, funds } => contract_addr@ == to && funds@.len() == 0
        && exists|c: crate::interface::Cw721ReceiveMsg| #[trigger] vencode(crate::interface::ReceiverHandleMsg::ReceiveNft(c)) == b@ && c.sender@ == from && c.token_id@ == id && c.msg == msg }
}
// ---- the contract as a transition system ----
pub open spec fn instantiated(s: SV, t: SV, who: Seq<u8>, fee: Percentage) -> bool {
    &&& t.config is Some && cfg(t).admin@ == who && cfg(t).protocol_fee == fee && cfg(t).fee_tiers@.len() == 0
    &&& t == (SV { config: t.config, ..s })
}
pub open spec fn pos_arg(env: Env, info: MessageInfo, k: PoolKey, lower: i32, upper: i32, delta: Liquidity, slo: SqrtPrice, shi: SqrtPrice) -> PosArg {
    PosArg { k, lower, upper, delta: delta.0 as int, slo: slo.0 as int, shi: shi.0 as int, now: env.block.time.millis_spec(), height: env.block.height, who: info.sender@, me: env.contract.address@, funds: info.funds@ }
}
pub open spec fn sw_arg(s: SV, env: Env, k: PoolKey, xy: bool, by_in: bool, limit: SqrtPrice) -> SwArg { SwArg { s, k, now: env.block.time.millis_spec(), xy, by_in, limit } }
pub open spec fn swap_done(s: SV, t: SV, env: Env, info: MessageInfo, k: PoolKey, xy: bool, amount: TokenAmount, by_in: bool, limit: SqrtPrice, m: Seq<MV>) -> bool {
    exists|res: CalculateSwapResult| #[trigger] swapped(sw_arg(s, env, k, xy, by_in, limit), amount.0 as int, res, t, info, env.contract.address@, Seq::<MV>::empty(), m)
}
pub open spec fn route_done(s: SV, t: SV, env: Env, info: MessageInfo, amount_in: TokenAmount, expected: TokenAmount, slippage: Percentage, hs: Seq<SwapHop>, m: Seq<MV>) -> bool {
    exists|st: RtSt| st.s == t && st.m == m && st.amt >= min_out(expected.0 as int, slippage.0 as int)
        && #[trigger] rt_ok(hs, env.block.time.millis_spec(), info.sender@, env.contract.address@, RtSt { s, amt: amount_in.0 as int, funds: info.funds@, m: Seq::<MV>::empty() }, st)
}
/// every successful execute message: the state change and the messages sent
pub open spec fn executed(s: SV, t: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, out: Seq<CosmosMsg>) -> bool {
    let who = info.sender@; let now = env.block.time.millis_spec(); let m = mvs(out);
    match msg {
        ExecuteMsg::ChangeAdmin { new_admin } => admin_changed(s, t, who, new_admin@) && out.len() == 0,
        ExecuteMsg::WithdrawProtocolFee { pool_key } => protocol_withdrawn(s, t, who, pool_key, m),
        ExecuteMsg::ChangeProtocolFee { protocol_fee } => protocol_fee_changed(s, t, who, protocol_fee) && out.len() == 0,
        ExecuteMsg::ChangeFeeReceiver { pool_key, fee_receiver } => receiver_changed(s, t, who, pool_key, fee_receiver@) && out.len() == 0,
        ExecuteMsg::CreatePosition { pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper } =>
            pos_created(s, t, pos_arg(env, info, pool_key, lower_tick, upper_tick, liquidity_delta, slippage_limit_lower, slippage_limit_upper), m),
        ExecuteMsg::Mint { extension: e } =>
            pos_created(s, t, pos_arg(env, info, e.pool_key, e.lower_tick, e.upper_tick, e.liquidity_delta, e.slippage_limit_lower, e.slippage_limit_upper), m),
        ExecuteMsg::Swap { pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit } => swap_done(s, t, env, info, pool_key, x_to_y, amount, by_amount_in, sqrt_price_limit, m),
        ExecuteMsg::SwapRoute { amount_in, expected_amount_out, slippage, swaps } => route_done(s, t, env, info, amount_in, expected_amount_out, slippage, swaps@, m),
        ExecuteMsg::TransferPosition { index, receiver } => pos_moved(s, t, who, index as int, receiver@) && addr_ok(receiver@) && out.len() == 0,
        ExecuteMsg::ClaimFee { index } => fee_claimed(s, t, who, index as int, now, m),
        ExecuteMsg::RemovePosition { index } => pos_closed(s, t, who, index as int, now, m),
        ExecuteMsg::CreatePool { token_0, token_1, fee_tier, init_sqrt_price, init_tick } => pool_opened(s, t, now, token_0@, token_1@, fee_tier, init_sqrt_price, init_tick) && out.len() == 0,
        ExecuteMsg::AddFeeTier { fee_tier } => tier_added(s, t, who, fee_tier) && out.len() == 0,
        ExecuteMsg::RemoveFeeTier { fee_tier } => tier_removed(s, t, who, fee_tier) && out.len() == 0,
        ExecuteMsg::Approve { spender, token_id, expires } => appr_done(s, t, token_id@, who, env.block, spender@, true, expires) && out.len() == 0,
        ExecuteMsg::Revoke { spender, token_id } => appr_done(s, t, token_id@, who, env.block, spender@, false, None) && out.len() == 0,
        ExecuteMsg::ApproveAll { operator, expires } => !expires.vdef().expired(env.block) && t == (SV { ops: s.ops.insert((who, operator@), expires.vdef()), ..s }) && out.len() == 0,
        ExecuteMsg::RevokeAll { operator } => t == (SV { ops: s.ops.remove((who, operator@)), ..s }) && out.len() == 0,
        ExecuteMsg::TransferNft { recipient, token_id } => nft_moved(s, t, token_id@, who, env.block, recipient@) && out.len() == 0,
        ExecuteMsg::Burn { token_id } => nft_burned(s, t, token_id@, who, env.block, now, m),
        ExecuteMsg::SendNft { contract, token_id, msg } => nft_moved(s, t, token_id@, who, env.block, contract@) && nft_notice(out, contract@, token_id@, who, msg),
    }
}
pub open spec fn pool_opened(s: SV, t: SV, now: u64, a: Seq<u8>, b: Seq<u8>, ft: FeeTier, price: SqrtPrice, tick: i32) -> bool { exists|k: PoolKey| #[trigger] pool_created(s, t, now, a, b, ft, price, tick, k) }
pub open spec fn appr_done(s: SV, t: SV, id: Seq<u8>, who: Seq<u8>, b: BlockInfo, spender: Seq<u8>, add: bool, ex: Option<Expiration>) -> bool { exists|p: Position| #[trigger] approvals_updated(s, t, id, who, b, spender, add, ex, p) }
} // verus!
} // mod vexec
