//! Random histories of contract messages, executed on the compiled contract and on the reference model;
//! after every message the whole stored state, the emitted transfers and sampled queries are compared.
use crate::model::*;
use crate::refmath::*;
use crate::util::*;
use cosmwasm_std::testing::{MockApi, MockQuerier};
use cosmwasm_std::{from_binary, to_binary, Addr, BankMsg, Binary, BlockInfo, Coin, ContractInfo, CosmosMsg, Deps, DepsMut, Env, MessageInfo, Order, QuerierWrapper, Record, Response, Storage, Timestamp, Uint128, WasmMsg};
use cw20::{Cw20ExecuteMsg, Expiration};
use decimal::Decimal;
use oraiswap_v3::interface::*;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::*;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::{contract, state, FeeTier, LiquidityTick, Pool, PoolKey, Position, Tick};
use serde::de::DeserializeOwned;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Default)]
pub struct Mem(pub BTreeMap<Vec<u8>, Vec<u8>>);
impl Storage for Mem {
    fn get(&self, k: &[u8]) -> Option<Vec<u8>> { self.0.get(k).cloned() }
    fn set(&mut self, k: &[u8], v: &[u8]) { self.0.insert(k.to_vec(), v.to_vec()); }
    fn remove(&mut self, k: &[u8]) { self.0.remove(k); }
    fn range<'a>(&'a self, s: Option<&[u8]>, e: Option<&[u8]>, o: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound::*;
        if let (Some(s), Some(e)) = (s, e) { if s >= e { return Box::new(std::iter::empty()); } }
        let lo = s.map(|x| Included(x.to_vec())).unwrap_or(Unbounded);
        let hi = e.map(|x| Excluded(x.to_vec())).unwrap_or(Unbounded);
        let it = self.0.range((lo, hi)).map(|(k, v)| (k.clone(), v.clone()));
        match o { Order::Ascending => Box::new(it), Order::Descending => Box::new(it.rev()) }
    }
}
pub const SELF: &str = "contract";
type Diffs = Vec<(String, String)>;
type Funds = BTreeMap<String, u128>;
pub struct World { pub st: Mem, pub m: Model, pub now: u64, pub height: u64, pub moderate: bool, pub accts: Vec<&'static str>, pub toks: Vec<&'static str>, pub ledger: BTreeMap<String, i128>, pub log: Vec<String>, pub wide: bool, pub good: bool, pub comb: Option<PK> }

pub fn pkey(k: &PK) -> PoolKey { PoolKey { token_x: k.0.clone(), token_y: k.1.clone(), fee_tier: tier((k.2, k.3)) } }
pub fn tier(t: (u64, u16)) -> FeeTier { FeeTier { fee: Percentage::new(t.0), tick_spacing: t.1 } }
fn unpk(k: &PoolKey) -> PK { (k.token_x.clone(), k.token_y.clone(), k.fee_tier.fee.get(), k.fee_tier.tick_spacing) }

impl World {
    pub fn block(&self) -> BlockInfo { BlockInfo { height: self.height, time: Timestamp::from_nanos(self.now), chain_id: "c".into() } }
    pub fn env(&self) -> Env { Env { block: self.block(), transaction: None, contract: ContractInfo { address: Addr::unchecked(SELF) } } }
    pub fn q<T: DeserializeOwned>(&self, msg: QueryMsg) -> Result<T, ()> {
        let (api, qr) = (MockApi::default(), MockQuerier::default());
        let r = guard(|| contract::query(Deps { storage: &self.st, api: &api, querier: QuerierWrapper::new(&qr) }, self.env(), msg)).ok_or(())?.map_err(|_| ())?;
        from_binary(&r).map_err(|_| ())
    }
    /// runs a message; the storage is left as it was when the message fails
    pub fn exec(&mut self, who: &str, funds: &Funds, msg: ExecuteMsg) -> Result<Vec<Msg>, ()> {
        let (api, qr) = (MockApi::default(), MockQuerier::default());
        let mut st = self.st.clone();
        let info = MessageInfo { sender: Addr::unchecked(who), funds: funds.iter().filter(|x| *x.1 != 0).map(|(d, a)| Coin { denom: d.clone(), amount: Uint128::new(*a) }).collect() };
        let env = self.env();
        let r = guard(|| contract::execute(DepsMut { storage: &mut st, api: &api, querier: QuerierWrapper::new(&qr) }, env, info, msg));
        match r { Some(Ok(resp)) => { self.st = st; Ok(msgs(&resp)) } _ => Err(()) }
    }
    pub fn new(r: &mut Rng, id: &str) -> World {
        let moderate = !r.chance(30);
        let mut w = World { st: Mem::default(), m: Model::default(), now: 1_571_797_419_879_305_533, height: 12345, moderate, accts: vec!["admin", "ali", "alice", "alice2", "bob"], toks: match r.below(5) { 0 | 1 => vec!["tokena", "tokenb", "ORAI", "ibc/ABC"], 2 => vec!["ORA", "ORAI", "ORAIX", "tokenb"], _ => vec!["ATOM", "tokenb", "zed", "ORAI"] }, ledger: BTreeMap::new(), log: vec![], wide: r.chance(25), good: true, comb: None };
        let pfee = *r.pick(&[0u64, 1, 10_000_000_000, 250_000_000_000, 999_999_999_999, 1_000_000_000_000, 333_333_333_333]);
        let (api, qr) = (MockApi::default(), MockQuerier::default());
        let env = w.env();
        contract::instantiate(DepsMut { storage: &mut w.st, api: &api, querier: QuerierWrapper::new(&qr) }, env, MessageInfo { sender: Addr::unchecked("admin"), funds: vec![] }, InstantiateMsg { protocol_fee: Percentage::new(pfee) }).unwrap();
        w.m.admin = "admin".into(); w.m.pfee = pfee; w.m.maxsteps = if r.chance(2) { 4000 } else { 25 };
        let _ = id;
        w
    }
    // ---------- comparison of the stored state with the model
    pub fn compare(&self, before: &Model) -> Diffs {
        let mut d: Diffs = vec![];
        macro_rules! c { ($tags:expr, $c:expr, $($a:tt)*) => { if !($c) { d.push(($tags.to_string(), format!($($a)*))); } } }
        let m = &self.m;
        let cfg = match state::CONFIG.load(&self.st) { Ok(c) => c, Err(_) => { d.push(("A12,A20".into(), "config lost".into())); return d; } };
        c!("A12", cfg.admin == m.admin, "admin is {} instead of {}", cfg.admin, m.admin);
        c!("A12", cfg.protocol_fee.get() == m.pfee, "protocol fee is {} instead of {}", cfg.protocol_fee.get(), m.pfee);
        let ts: Vec<_> = cfg.fee_tiers.iter().map(|t| (t.fee.get(), t.tick_spacing)).collect();
        c!("A20", ts == m.tiers, "fee tiers {ts:?} instead of {:?}", m.tiers);
        let np = state::POOLS.range_raw(&self.st, None, None, Order::Ascending).count();
        c!("A15,A16,A06", np == m.pools.len(), "{np} pools stored instead of {}", m.pools.len());
        let (mut nt, mut words) = (0, 0);
        for (k, p) in &m.pools {
            let pk = pkey(k);
            let rp = match state::get_pool(&self.st, &pk) { Ok(p) => p, Err(_) => { d.push(("A15,A16".into(), format!("pool {k:?} not found"))); continue; } };
            let newp = !before.pools.contains_key(k);
            let s = |t: &str| if newp { format!("{t},A15") } else { t.to_string() };
            c!(s("A09"), rp.liquidity.get() == p.liq, "pool liquidity {} instead of {}", rp.liquidity.get(), p.liq);
            c!(s("A05"), rp.sqrt_price.get() == p.price, "pool price {} instead of {}", rp.sqrt_price.get(), p.price);
            c!(s("A05,A09"), rp.current_tick_index == p.tick, "pool tick {} instead of {} (price {})", rp.current_tick_index, p.tick, p.price);
            c!(s("A07,A08"), (rp.fee_growth_global_x.get(), rp.fee_growth_global_y.get()) == (p.gx, p.gy), "global fee growth {:?} instead of {:?}", (rp.fee_growth_global_x, rp.fee_growth_global_y), (p.gx, p.gy));
            c!(s("A07"), (rp.fee_protocol_token_x.get(), rp.fee_protocol_token_y.get()) == (p.px, p.py), "protocol fees {:?} instead of {:?}", (rp.fee_protocol_token_x, rp.fee_protocol_token_y), (p.px, p.py));
            c!(s("A12"), rp.fee_receiver == p.receiver, "fee receiver {} instead of {}", rp.fee_receiver, p.receiver);
            c!("A15", rp.start_timestamp == p.start, "start timestamp");
            nt += p.ticks.len();
            let mut ws: BTreeSet<i32> = BTreeSet::new();
            for (t, x) in &p.ticks {
                let rt = match state::get_tick(&self.st, &pk, *t) { Ok(t) => t, Err(_) => { d.push(("A10,A09".into(), format!("tick {t} not stored"))); continue; } };
                c!("A09", rt.index == *t, "tick {t} stores index {}", rt.index);
                c!("A09,A02", rt.sqrt_price.get() == tp(*t), "tick {t} stores price {}", rt.sqrt_price.get());
                c!("A09", rt.liquidity_gross.get() == x.gross, "tick {t} gross {} instead of {}", rt.liquidity_gross.get(), x.gross);
                let net = if rt.sign { rt.liquidity_change.get() as i128 } else { -(rt.liquidity_change.get() as i128) };
                c!("A09", net == x.net, "tick {t} net {net} instead of {}", x.net);
                c!("A08", (rt.fee_growth_outside_x.get(), rt.fee_growth_outside_y.get()) == (x.ox, x.oy), "tick {t} fee growth outside {:?} instead of {:?}", (rt.fee_growth_outside_x, rt.fee_growth_outside_y), (x.ox, x.oy));
                c!("A10", state::get_bitmap(&self.st, *t, k.3, &pk), "tick {t} is initialized but not marked in the bitmap");
                ws.insert((*t + MAXT) / k.3 as i32 / 64);
            }
            words += p.ticks.len();
        }
        let rt = state::TICKS.range_raw(&self.st, None, None, Order::Ascending).count();
        c!("A10,A09", rt == nt, "{rt} ticks stored instead of {nt}");
        let bits: u32 = state::BITMAP.range_raw(&self.st, None, None, Order::Ascending).map(|x| x.map(|y| y.1.count_ones()).unwrap_or(0)).sum();
        c!("A10", bits as usize == words, "{bits} ticks marked in bitmaps instead of {words}");
        let mut n = 0;
        for (a, v) in &m.pos {
            let ad = Addr::unchecked(a.clone());
            let len = state::get_position_length(&self.st, &ad);
            c!("A11", len as usize == v.len(), "{a} has {len} positions instead of {}", v.len());
            n += v.len();
            for (i, q) in v.iter().enumerate() {
                let rp = match state::get_position(&self.st, &ad, i as u32) { Ok(x) => x, Err(_) => { d.push(("A11".into(), format!("position {a}/{i} not stored"))); continue; } };
                c!("A11", unpk(&rp.pool_key) == q.pool && rp.lower_tick_index == q.lo && rp.upper_tick_index == q.hi && rp.last_block_number == q.block, "position {a}/{i} is {rp:?} instead of {q:?}");
                c!("A11,A09", rp.liquidity.get() == q.liq, "position {a}/{i} liquidity {} instead of {}", rp.liquidity.get(), q.liq);
                c!("A08", (rp.fee_growth_inside_x.get(), rp.fee_growth_inside_y.get()) == (q.ix, q.iy), "position {a}/{i} fee growth inside {:?} instead of {:?}", (rp.fee_growth_inside_x, rp.fee_growth_inside_y), (q.ix, q.iy));
                c!("A07", (rp.tokens_owed_x.get(), rp.tokens_owed_y.get()) == q.owed, "position {a}/{i} owed {:?} instead of {:?}", (rp.tokens_owed_x, rp.tokens_owed_y), q.owed);
                let ap: Vec<_> = rp.approvals.iter().map(|x| (x.spender.to_string(), x.expires)).collect();
                c!("A12,A11", ap == q.approvals, "position {a}/{i} approvals {ap:?} instead of {:?}", q.approvals);
            }
        }
        let rn = state::POSITIONS.range_raw(&self.st, None, None, Order::Ascending).count();
        c!("A11", rn == n, "{rn} positions stored instead of {n}");
        let mut no = 0;
        for a in &self.accts { for b2 in &self.accts {
            let ro = state::OPERATORS.may_load(&self.st, (a.as_bytes(), b2.as_bytes())).ok().flatten();
            let mo = m.ops.get(&(a.to_string(), b2.to_string())).cloned();
            if mo.is_some() { no += 1; }
            c!("A12", ro == mo, "operator {a}->{b2} is {ro:?} instead of {mo:?}");
        } }
        let rno = state::OPERATORS.range_raw(&self.st, None, None, Order::Ascending).count();
        c!("A12", rno == no, "{rno} operators stored instead of {no}");
        if let Err((t, msg)) = m.invariants() { d.push((t.into(), msg)); }
        d
    }
    fn changed(&self, before: &Mem) -> Vec<Vec<u8>> {
        let mut v = vec![];
        for (k, x) in &self.st.0 { if before.0.get(k) != Some(x) { v.push(k.clone()); } }
        for k in before.0.keys() { if !self.st.0.contains_key(k) { v.push(k.clone()); } }
        v
    }
    // ---------- generators
    fn acct(&self, r: &mut Rng) -> String { r.pick(&self.accts).to_string() }
    fn pool(&self, r: &mut Rng) -> Option<PK> { let n = self.m.pools.len(); if n == 0 { None } else { self.m.pools.keys().nth(r.below(n as u64) as usize).cloned() } }
    fn anypos(&self, r: &mut Rng) -> Option<(String, u32)> {
        let all: Vec<_> = self.m.pos.iter().flat_map(|(a, v)| (0..v.len() as u32).map(move |i| (a.clone(), i))).collect();
        if all.is_empty() { None } else { Some(r.pick(&all).clone()) }
    }
    fn expiry(&self, r: &mut Rng) -> Option<Expiration> {
        match r.below(7) { 0 => None, 1 => Some(Expiration::Never {}), 2 => Some(Expiration::AtHeight(self.height + r.below(4))), 3 => Some(Expiration::AtHeight(self.height + 5)), 4 => Some(Expiration::AtTime(Timestamp::from_nanos(self.now + r.below(2) * r.below(20_000_000_000)))), 5 => Some(Expiration::AtTime(Timestamp::from_nanos(self.now + 15_000_000_000))), _ => Some(Expiration::AtHeight(self.height.saturating_sub(1))) }
    }
    fn liq(&self, r: &mut Rng, s: i32) -> u128 {
        if self.moderate { match r.below(4) { 0 => 1_000_000 * (1 + r.below(1000) as u128), 1 => 1 + r.below128(1_000_000_000_000), 2 => 1_000_000u128 * 1_000_000, _ => 1 + r.below128(1_000_000_000_000_000_000) } }
        else { match r.below(6) { 0 => r.amt(128), 1 => max_liq(s) - 1 - r.below(3) as u128, 2 => max_liq(s) / 2 + r.below(2) as u128, 3 => r.amt(100), _ => 1 + r.below128(1 << 70) } }
    }
    fn tick(&self, r: &mut Rng, k: &PK) -> i32 {
        let s = k.3 as i32; let p = &self.m.pools[k];
        let c = p.tick / s;
        let span = if self.wide { 400 } else { 12 };
        let i = match r.below(12) { 0 | 1 if !p.ticks.is_empty() => { let n = r.below(p.ticks.len() as u64) as usize; return *p.ticks.keys().nth(n).unwrap(); } 2 => c, 3 => c + 1, 4 => c + 64 - r.below(128) as i32, 5 => { if self.moderate { c + r.range(-255, 257) as i32 } else { *r.pick(&[MAXT / s, -(MAXT / s), MAXT / s + 1, -(MAXT / s) - 1]) } } _ => c + r.range(-span, span) as i32 };
        let t = i * s;
        if r.chance(2) { t + 1 } else if self.moderate { t.max(-max_tick(s)).min(max_tick(s)) } else { t }
    }
    fn funds_for(&self, r: &mut Rng, ms: &[Msg], denoms: &[String]) -> Funds {
        // ms comes from a dry run with unlimited funds: the refund tells the charge
        let mut f = Funds::new();
        let under = r.chance(6);
        for d in denoms {
            if self.m.is_cw20(d) { continue; }
            let refund: u128 = ms.iter().filter_map(|x| match x { Msg::Bank { denom, amount, .. } if denom == d && *amount > u128::MAX / 2 => Some(*amount), _ => None }).max().unwrap_or(BIG);
            let charge = BIG - refund.min(BIG);
            f.insert(d.clone(), match r.below(8) { 0 => charge.saturating_add(1), 1 => charge.saturating_add(r.amt(60)), 2 if under => charge.saturating_sub(1), 3 if under => 0, 4 => charge.saturating_mul(2), _ => charge });
        }
        if r.chance(8) { let t = r.pick(&self.toks).to_string(); if !self.m.is_cw20(&t) { *f.entry(t).or_default() += r.amt(40); } }
        if r.chance(4) { f.insert("junk".into(), 5); }
        f
    }
    fn big(&self) -> Funds { self.toks.iter().filter(|t| !self.m.is_cw20(t)).map(|t| (t.to_string(), BIG)).collect() }
    pub fn swap_args(&self, r: &mut Rng, k: &PK) -> (bool, u128, bool, u128) {
        let p = &self.m.pools[k]; let s = k.3 as i32;
        let xy = r.b(); let by_in = r.chance(65);
        let near = |r: &mut Rng| -> Option<i32> { let n = r.below(3) as usize; if xy { p.ticks.range(..=p.tick).rev().nth(n).map(|x| *x.0) } else { p.ticks.range(p.tick + 1..).nth(n).map(|x| *x.0) } };
        let limit = match r.below(12) {
            0 | 1 => near(r).map(tp).unwrap_or(if xy { MINP } else { MAXP }),
            2 => { let t = (p.tick / s + r.range(-300, 300) as i32) * s; if t.abs() <= MAXT { tp(t) } else { MINP } }
            3 => near_price(r, p.price),
            4 => match r.below(6) { 0 => p.price, 1 => 0, 2 => u128::MAX, 3 => if xy { MAXP } else { MINP }, 4 => MINP - 1, _ => MAXP + 1 },
            _ => if xy { MINP } else { MAXP },
        };
        let edge = |t: i32| -> Option<u128> {
            let q = tp(t);
            let (i, o) = if xy { (dx(p.price, q, p.liq, true), dy(p.price, q, p.liq, false)) } else { (dy(p.price, q, p.liq, true), dx(p.price, q, p.liq, false)) };
            if by_in { let fee = cl(i * b(k.2 as u128), b(1_000_000_000_000 - k.2 as u128)); small(i + fee) } else { small(o) }
        };
        let amount = match r.below(10) {
            0 => r.below(4) as u128,
            1 | 2 | 3 => { let t = near(r); let a = t.and_then(|t| edge(t)); match a { Some(a) => match r.below(6) { 0 => a.saturating_add(1), 1 => a.saturating_sub(1), 2 => a.saturating_add(2), 3 => a.saturating_add(r.below(50) as u128), _ => a }, None => r.amt(40) } }
            4 => r.amt(if self.moderate { 30 } else { 128 }),
            5 => r.amt(20),
            _ => { let m = edge((p.tick / s + if xy { -3 } else { 4 }).max(-(MAXT / s)).min(MAXT / s) * s).unwrap_or(1 << 40); r.below128(m.saturating_add(2)) + 1 }
        };
        (xy, amount, by_in, limit)
    }
}
pub const BIG: u128 = u128::MAX;
pub fn msgs(resp: &Response) -> Vec<Msg> {
    let mut v = vec![];
    for s in &resp.messages { match &s.msg {
        CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => for c in amount { v.push(Msg::Bank { denom: c.denom.clone(), to: to_address.clone(), amount: c.amount.u128() }); },
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) if funds.is_empty() => match from_binary::<Cw20ExecuteMsg>(msg) {
            Ok(Cw20ExecuteMsg::Transfer { recipient, amount }) => v.push(Msg::Pay { token: contract_addr.clone(), to: recipient, amount: amount.u128() }),
            Ok(Cw20ExecuteMsg::TransferFrom { owner, recipient, amount }) if recipient == SELF => v.push(Msg::Pull { token: contract_addr.clone(), from: owner, amount: amount.u128() }),
            _ => v.push(Msg::Other(format!("{contract_addr} {}", String::from_utf8_lossy(msg)))),
        },
        o => v.push(Msg::Other(format!("{o:?}"))),
    } }
    v
}
fn sorted(v: &[Msg]) -> Vec<String> { let mut x: Vec<String> = v.iter().map(|m| format!("{m:?}")).collect(); x.sort(); x }

fn weights(id: &str) -> [u64; 14] {
    // create swap route claim remove transfer burn approve opall admin tier newpool withdraw poke
    match id {
        "A05" | "A06" => [18, 55, 8, 3, 4, 1, 1, 0, 0, 3, 1, 2, 1, 0],
        "A07" => [16, 40, 4, 18, 6, 2, 1, 0, 0, 4, 1, 2, 6, 0],
        "A08" | "A09" | "A10" => [25, 42, 2, 8, 16, 2, 1, 0, 0, 1, 1, 2, 0, 0],
        "A11" => [25, 6, 0, 4, 18, 25, 8, 6, 3, 0, 1, 2, 0, 0],
        "A12" => [14, 6, 1, 6, 8, 14, 8, 18, 10, 10, 4, 3, 6, 0],
        "A13" => [50, 12, 30, 2, 3, 0, 0, 0, 0, 1, 1, 2, 0, 0],
        "A14" => [22, 22, 18, 10, 10, 1, 3, 1, 0, 2, 1, 3, 6, 0],
        "A15" | "A20" => [8, 8, 0, 1, 1, 0, 0, 0, 0, 8, 30, 36, 4, 0],
        "A19" => [40, 14, 0, 3, 10, 8, 1, 8, 8, 1, 3, 6, 0, 0],
        "A21" => [22, 34, 6, 14, 12, 2, 1, 0, 0, 3, 1, 2, 5, 0],
        "A03" => [40, 20, 0, 4, 28, 1, 1, 0, 0, 1, 1, 2, 0, 0],
        _ => [20, 30, 5, 8, 8, 5, 2, 5, 3, 3, 2, 3, 2, 0],
    }
}
pub fn run(id: &str, r: &mut Rng) -> Result<(), String> { play(id, r).1 }
/// a random history that agreed with the model to its end
#[allow(dead_code)]
pub fn history(id: &str, r: &mut Rng) -> Option<World> { let (w, e) = play(id, r); if e.is_ok() && w.good { Some(w) } else { None } }
fn play(id: &str, r: &mut Rng) -> (World, Result<(), String>) {
    let mut w = World::new(r, id);
    let mut res = Ok(());
    let n = 20 + r.below(if id == "A19" { 120 } else { 60 });
    // initial tiers and pools
    let mut script: Vec<u8> = vec![10, 10, 11, 11, 0, 0];
    if r.b() { script.push(11); script.push(0); }
    // now and then a comb: many narrow positions next to each other, then swaps across them
    let comb = matches!(id, "A05" | "A06" | "A08" | "A09" | "A10" | "A07" | "A21") && r.chance(3);
    let n = if comb { w.m.maxsteps = 4000; w.moderate = true; n + 100 } else { n };
    let wt = weights(id); let tot: u64 = wt.iter().sum();
    for i in 0..n {
        if comb && i as usize == script.len() { w.comb = w.pool(r); }
        let kind = if comb && (i as usize) >= script.len() && i < 90 { 0 } else if (i as usize) < script.len() { script[i as usize] as usize } else { let mut x = r.below(tot); let mut j = 0; while x >= wt[j] { x -= wt[j]; j += 1; } j };
        let dt = *r.pick(&[0u64, 1, 1_000_000, 5_000_000_000, 6_999_999_999, 700_000_000_000]);
        if r.chance(40) { w.now += dt; w.height += r.below(3); }
        let before = w.m.clone();
        let (mut diffs, go) = op(&mut w, r, kind, id, i < 6);
        diffs.extend(w.compare(&before));
        if w.log.len() > 12 { w.log.remove(0); }
        if let Some((t, msg)) = diffs.iter().find(|(t, _)| t.split(',').any(|x| x == id)) { res = Err(format!("{msg} [{t}] after message {i}; last messages: {}", w.log.join(" ;; "))); break; }
        if !diffs.is_empty() || !go { w.good = false; if std::env::var("WDEBUG").is_ok() && !diffs.is_empty() { eprintln!("other: {:?} {}", diffs[0], w.log.join(" ;; ")); } break; }
        if id == "A19" || r.chance(5) { if let Err(e) = queries(&w, r) { if id == "A19" || std::env::var("WDEBUG").is_ok() { res = Err(format!("{e}; last messages: {}", w.log.join(" ;; "))); } break; } }
    }
    (w, res)
}
/// what all pools owe, per token, in units of 2^-448: the exact amounts behind every open position, its recorded and
/// pending fees, and the uncollected protocol fees (read from the contract's own storage, not from the model)
fn owed(st: &Mem) -> BTreeMap<String, B> {
    let mut o: BTreeMap<String, B> = BTreeMap::new();
    for (k, p) in state::POOLS.range(st, None, None, Order::Ascending).filter_map(|x| x.ok()) {
        if let Ok(k) = PoolKey::from_bytes(&k) { *o.entry(k.token_x).or_default() += b(p.fee_protocol_token_x.get()) << 448; *o.entry(k.token_y).or_default() += b(p.fee_protocol_token_y.get()) << 448; }
    }
    for (_, q) in state::POSITIONS.range(st, None, None, Order::Ascending).filter_map(|x| x.ok()) {
        let Ok(p) = state::get_pool(st, &q.pool_key) else { continue };
        let (lo, hi) = (tp(q.lower_tick_index), tp(q.upper_tick_index));
        let s = p.sqrt_price.get().max(lo).min(hi);
        let l = b(q.liquidity.get());
        let mut x = (b(q.tokens_owed_x.get()) << 448) + ((l * e(18) * b(hi - s)) << 448) / (b(hi) * b(s));
        let mut y = (b(q.tokens_owed_y.get()) << 448) + ((l * b(s - lo)) << 448) / e(30);
        if let (Ok(a), Ok(c)) = (state::get_tick(st, &q.pool_key, q.lower_tick_index), state::get_tick(st, &q.pool_key, q.upper_tick_index)) {
            let ins = |g: u128, a: u128, c: u128| { let below = if p.current_tick_index >= q.lower_tick_index { a } else { g.wrapping_sub(a) }; let above = if p.current_tick_index < q.upper_tick_index { c } else { g.wrapping_sub(c) }; g.wrapping_sub(below).wrapping_sub(above) };
            x += ((l * b(ins(p.fee_growth_global_x.get(), a.fee_growth_outside_x.get(), c.fee_growth_outside_x.get()).wrapping_sub(q.fee_growth_inside_x.get()))) << 448) / e(34);
            y += ((l * b(ins(p.fee_growth_global_y.get(), a.fee_growth_outside_y.get(), c.fee_growth_outside_y.get()).wrapping_sub(q.fee_growth_inside_y.get()))) << 448) / e(34);
        }
        *o.entry(q.pool_key.token_x.clone()).or_default() += x;
        *o.entry(q.pool_key.token_y.clone()).or_default() += y;
    }
    o
}
/// one message; the Diffs are (properties, text)
fn op(w: &mut World, r: &mut Rng, kind: usize, id: &str, init: bool) -> (Diffs, bool) {
    let mut who = if r.chance(70) { w.m.pos.iter().filter(|x| !x.1.is_empty()).map(|x| x.0.clone()).nth(r.below(3) as usize).unwrap_or(w.acct(r)) } else { w.acct(r) };
    let mut m2 = w.m.clone();
    let mut ms: Vec<Msg> = vec![];
    let blk = w.block();
    let now_ms = w.now / 1_000_000;
    let mut funds = Funds::new();
    if r.chance(2) { funds.insert("ORAI".into(), 7); }
    let st0 = w.st.clone();
    let mut quoted: Option<(Option<QuoteResult>, PK, bool, Funds)> = None;
    let mut rquote: Option<Option<u128>> = None;
    // (message, model verdict, tags of a wrong refusal, tags of wrong messages)
    let (msg, mr, tref, tmsg): (ExecuteMsg, Result<(), ME>, &str, &str) = match kind {
        0 => {
            let k = match w.pool(r) { Some(k) => k, None => return (vec![], true) };
            let mut k = k; if r.chance(1) { std::mem::swap(&mut k.0, &mut k.1); }
            let kk = if w.m.pools.contains_key(&k) { k.clone() } else { w.pool(r).unwrap() };
            who = w.acct(r);
            let (mut lo, mut hi) = (w.tick(r, &kk), w.tick(r, &kk));
            let (k, kk) = match &w.comb { Some(c) if r.chance(85) => (c.clone(), c.clone()), _ => (k, kk) };
            if w.comb.as_ref() == Some(&k) { let sp = k.3 as i32; let c = w.m.pools[&k].tick / sp; lo = (c + r.range(-40, 40) as i32) * sp; hi = lo + sp * (1 + r.below(3) as i32); }
            if lo > hi && !r.chance(3) { std::mem::swap(&mut lo, &mut hi); }
            let l = if r.chance(2) { 0 } else { w.liq(r, k.3 as i32) };
            let p = w.m.pools[&kk].price;
            let (sl, su) = match r.below(10) { 0 => (p, p), 1 => (p + 1, u128::MAX), 2 => (0, p - 1), 3 => (p - 1, p + 1), 4 => (p, u128::MAX), 5 => (near_price(r, p), near_price(r, p)), _ => (0, u128::MAX) };
            let mut dry = w.m.clone(); let mut dm = vec![];
            let _ = dry.create_position(&who, &k, lo, hi, l, sl, su, w.height, &w.big(), &mut dm);
            funds = w.funds_for(r, &dm, &[k.0.clone(), k.1.clone()]);
            let mr = m2.create_position(&who, &k, lo, hi, l, sl, su, w.height, &funds, &mut ms);
            let msg = if r.b() { ExecuteMsg::CreatePosition { pool_key: pkey(&k), lower_tick: lo, upper_tick: hi, liquidity_delta: Liquidity::new(l), slippage_limit_lower: SqrtPrice::new(sl), slippage_limit_upper: SqrtPrice::new(su) } }
                else { ExecuteMsg::Mint { extension: NftExtensionMsg { pool_key: pkey(&k), lower_tick: lo, upper_tick: hi, liquidity_delta: Liquidity::new(l), slippage_limit_lower: SqrtPrice::new(sl), slippage_limit_upper: SqrtPrice::new(su) } } };
            (msg, mr, "A09,A13,A14", "A14,A03")
        }
        1 => {
            let k = match w.pool(r) { Some(k) => k, None => return (vec![], true) };
            let k = match &w.comb { Some(c) if r.chance(85) => c.clone(), _ => k };
            let (xy, mut amount, by_in, limit) = w.swap_args(r, &k);
            if w.comb.as_ref() == Some(&k) && r.chance(50) { let l: u128 = w.m.pools[&k].ticks.values().map(|t| t.gross / 1_000_000).sum(); amount = r.below128(l.saturating_mul(k.3 as u128) / 4000 + 10) + 1; }
            who = w.acct(r);
            let mut dry = w.m.clone(); let mut dm = vec![];
            match dry.swap(&who, &k, xy, amount, by_in, limit, &w.big(), &mut dm) { Err("LONG") => return (vec![], true), _ => {} }
            funds = w.funds_for(r, &dm, &[if xy { k.0.clone() } else { k.1.clone() }]);
            let calc = w.m.calc_swap(&k, xy, amount, by_in, limit);
            let mr = m2.swap(&who, &k, xy, amount, by_in, limit, &funds, &mut ms).map(|_| ());
            let q: Option<QuoteResult> = w.q(QueryMsg::Quote { pool_key: pkey(&k), x_to_y: xy, amount: TokenAmount::new(amount), by_amount_in: by_in, sqrt_price_limit: SqrtPrice::new(limit) }).ok();
            let mut d = vec![];
            // what the quote says must be what the model of the execution says
            if let (Some(q), Ok(c)) = (&q, &calc) {
                if (q.amount_in.get(), q.amount_out.get(), q.target_sqrt_price.get()) != (c.ain, c.aout, c.price) { d.push(("A05,A06".to_string(), format!("quote {:?} instead of {:?}", (q.amount_in, q.amount_out, q.target_sqrt_price), (c.ain, c.aout, c.price)))); }
                if q.ticks.iter().map(|t| t.index).collect::<Vec<_>>() != c.crossed { d.push(("A06,A09".to_string(), format!("quote crosses {:?} instead of {:?}", q.ticks.iter().map(|t| t.index).collect::<Vec<_>>(), c.crossed))); }
                if by_in && q.amount_in.get() != amount { d.push(("A05".to_string(), format!("exact input {amount} charged {}", q.amount_in))); }
                if !by_in && q.amount_out.get() > amount { d.push(("A05".to_string(), format!("exact output {amount} delivers {}", q.amount_out))); }
                let (p0, p1) = (w.m.pools[&k].price, q.target_sqrt_price.get());
                if if xy { p1 > p0 || p1 < limit } else { p1 < p0 || p1 > limit } { d.push(("A05".to_string(), format!("final price {p1} from {p0} with limit {limit}"))); }
            }
            if let (Some(q), Err(e)) = (&q, &calc) { d.push((format!("{e},A06"), format!("quote succeeds with {q:?} where the swap must fail"))); }
            if w.moderate && q.is_none() && calc.is_ok() { d.push(("A06,A05".to_string(), "quote fails where the swap succeeds".to_string())); }
            quoted = Some((q, k.clone(), xy, funds.clone()));
            w.log.push(format!("(swap at price {} tick {} liq {})", w.m.pools[&k].price, w.m.pools[&k].tick, w.m.pools[&k].liq));
            let msg = ExecuteMsg::Swap { pool_key: pkey(&k), x_to_y: xy, amount: TokenAmount::new(amount), by_amount_in: by_in, sqrt_price_limit: SqrtPrice::new(limit) };
            if !d.is_empty() { w.log.push(format!("{who} {msg:?}")); return (d, false); }
            (msg, mr, "A05,A14", "A14,A05")
        }
        2 => {
            who = w.acct(r);
            let nh = r.below(4);
            let mut hops: Vec<(PK, bool)> = vec![];
            let mut cur: Option<String> = None;
            for _ in 0..nh { let c: Vec<_> = w.m.pools.keys().flat_map(|k| [(k.clone(), true), (k.clone(), false)]).filter(|(k, xy)| cur.as_ref().map(|t| t == if *xy { &k.0 } else { &k.1 }).unwrap_or(true) || r.chance(2)).collect(); if c.is_empty() { break; } let h = r.pick(&c).clone(); cur = Some(if h.1 { h.0 .1.clone() } else { h.0 .0.clone() }); hops.push(h); }
            let amount = if r.chance(3) { 0 } else { r.amt(if w.moderate { 30 } else { 90 }) };
            let go = |m: &mut Model, f: &Funds, ms: &mut Vec<Msg>, settle: bool| -> Result<u128, ME> {
                let (mut a, mut f) = (amount, f.clone());
                for (k, xy) in &hops { let q = m.swap(&who, k, *xy, a, true, if *xy { MINP } else { MAXP }, &f, ms)?; a = q.aout; if settle { f.remove(if *xy { &k.0 } else { &k.1 }); } }
                Ok(a)
            };
            let mut dm = vec![]; let mut dry = w.m.clone();
            let dr = go(&mut dry, &w.big(), &mut dm, false); // the calculation alone: attached coins do not matter to a quote
            if dr == Err("LONG") { return (vec![], true); }
            let denoms: Vec<String> = hops.iter().map(|(k, xy)| if *xy { k.0.clone() } else { k.1.clone() }).collect();
            funds = w.funds_for(r, &dm, &denoms);
            let exp = match (&dr, r.below(6)) { (Ok(o), 0) => *o, (Ok(o), 1) => o.saturating_add(1), (Ok(o), 2) => o.saturating_add(o / 50), (Ok(o), 3) => o.saturating_mul(2), (_, 4) => 0, _ => r.amt(40) };
            let slip = *r.pick(&[0u64, 1, 10_000_000_000, 20_000_000_000, 500_000_000_000, 999_999_999_999, 1_000_000_000_000, 1_000_000_000_001]);
            let mut out = 0;
            let mut mr = go(&mut m2, &funds, &mut ms, true).map(|o| { out = o; });
            if mr.is_ok() {
                if slip > 1_000_000_000_000 { mr = Err(OVF); }
                else { let min = cl(b(exp) * b(1_000_000_000_000 - slip as u128), e(12)); if b(out) < min { mr = Err("A13"); } }
            }
            let sh: Vec<SwapHop> = hops.iter().map(|(k, xy)| SwapHop { pool_key: pkey(k), x_to_y: *xy }).collect();
            if hops.iter().map(|h| &h.0).collect::<BTreeSet<_>>().len() == hops.len() {
                let q: Option<TokenAmount> = w.q(QueryMsg::QuoteRoute { amount_in: TokenAmount::new(amount), swaps: sh.clone() }).ok();
                if w.moderate || q.is_some() { rquote = Some(dr.ok()); if q.map(|x| x.get()) != dr.ok() { return (vec![("A06".into(), format!("route quote {q:?} instead of {dr:?}"))], false); } }
            }
            (ExecuteMsg::SwapRoute { amount_in: TokenAmount::new(amount), expected_amount_out: TokenAmount::new(exp), slippage: Percentage::new(slip), swaps: sh }, mr, "A05,A13,A14", "A14,A05")
        }
        3 => {
            let (o, i) = w.anypos(r).unwrap_or((who.clone(), 0));
            if r.chance(85) { who = o; }
            let i = if r.chance(3) { i + 1 } else { i };
            (ExecuteMsg::ClaimFee { index: i }, m2.claim(&who, i, &mut ms), "A07", "A07,A14")
        }
        4 => {
            let (o, i) = w.anypos(r).unwrap_or((who.clone(), 0));
            if r.chance(88) { who = o; }
            let i = if r.chance(3) { i + 1 } else { i };
            (ExecuteMsg::RemovePosition { index: i }, m2.remove(&who, i, &mut ms), "A11,A09,A03", "A14,A03,A07")
        }
        5 | 6 => {
            let (o, i) = w.anypos(r).unwrap_or((who.clone(), 0));
            if r.chance(50) { who = o.clone(); } else { who = w.acct(r); }
            let to = w.acct(r);
            let mut idb = Model::nftkey(&o, if r.chance(4) { i + 1 } else { i });
            if r.chance(2) { idb = Model::nftkey(&w.acct(r), 0); }
            let own = m2.by_id(&idb);
            let auth = match &own { None => Err("A12"), Some((o, i)) => if m2.can_send(o, *i, &who, &blk) { Ok(()) } else { Err("A12") } };
            if kind == 6 {
                let mr = auth.and_then(|_| { let (o, i) = own.unwrap(); m2.remove(&o, i, &mut ms) });
                (ExecuteMsg::Burn { token_id: Binary::from(idb) }, mr, "A12,A11", "A14,A12")
            } else { match r.below(3) {
                0 => { if r.chance(85) { who = o.clone(); } (ExecuteMsg::TransferPosition { index: i, receiver: to.clone() }, m2.give(&who, i, &to), "A11,A12", "A14") }
                1 => (ExecuteMsg::TransferNft { recipient: Addr::unchecked(to.clone()), token_id: Binary::from(idb) }, auth.and_then(|_| { let (o, i) = own.unwrap(); m2.give(&o, i, &to) }), "A11,A12", "A14"),
                _ => {
                    let payload = if r.b() { Some(Binary::from(vec![1, 2])) } else { None };
                    #[derive(serde::Serialize)] struct Rm<'a> { sender: &'a str, token_id: &'a Binary, msg: &'a Option<Binary> }
                    #[derive(serde::Serialize)] #[serde(rename_all = "snake_case")] enum Ex<'a> { ReceiveNft(Rm<'a>) }
                    let tid = Binary::from(idb);
                    let body = to_binary(&Ex::ReceiveNft(Rm { sender: &who, token_id: &tid, msg: &payload })).unwrap();
                    let mr = auth.and_then(|_| { let (o, i) = own.unwrap(); m2.give(&o, i, &to) });
                    ms.push(Msg::Other(format!("{to} {}", String::from_utf8_lossy(&body))));
                    (ExecuteMsg::SendNft { contract: Addr::unchecked(to), token_id: tid, msg: payload }, mr, "A11,A12", "A11,A12")
                }
            } }
        }
        7 => {
            let (o, i) = w.anypos(r).unwrap_or((who.clone(), 0));
            if r.chance(60) { who = o.clone(); } else { who = w.acct(r); }
            let sp = w.acct(r); let id = Model::nftkey(&o, if r.chance(3) { i + 1 } else { i });
            if r.chance(70) { let x = w.expiry(r); (ExecuteMsg::Approve { spender: Addr::unchecked(sp.clone()), token_id: Binary::from(id.clone()), expires: x }, m2.approve(&who, &sp, &id, Some(x.unwrap_or_default()), &blk), "A12", "A14") }
            else { (ExecuteMsg::Revoke { spender: Addr::unchecked(sp.clone()), token_id: Binary::from(id.clone()) }, m2.approve(&who, &sp, &id, None, &blk), "A12", "A14") }
        }
        8 => {
            let o = w.acct(r);
            if r.chance(70) { let x = w.expiry(r); let xx = x.unwrap_or_default(); let mr = if expired(&xx, &blk) { Err("A12") } else { m2.ops.insert((who.clone(), o.clone()), xx); Ok(()) }; (ExecuteMsg::ApproveAll { operator: Addr::unchecked(o), expires: x }, mr, "A12", "A14") }
            else { m2.ops.remove(&(who.clone(), o.clone())); (ExecuteMsg::RevokeAll { operator: Addr::unchecked(o) }, Ok(()), "A12", "A14") }
        }
        9 => {
            who = if r.chance(70) { w.m.admin.clone() } else { w.acct(r) };
            let ok = if who == w.m.admin { Ok(()) } else { Err("A12") };
            match r.below(4) {
                0 => { let a = w.acct(r); if ok.is_ok() { m2.admin = a.clone(); } (ExecuteMsg::ChangeAdmin { new_admin: Addr::unchecked(a) }, ok, "A12", "A14") }
                1 => { let f = *r.pick(&[0u64, 1, 10_000_000_000, 500_000_000_000, 1_000_000_000_000, 123_456_789_012]); if ok.is_ok() { m2.pfee = f; } (ExecuteMsg::ChangeProtocolFee { protocol_fee: Percentage::new(f) }, ok, "A12", "A14") }
                _ => { let k = w.pool(r).unwrap_or(("a".into(), "b".into(), 0, 1)); let a = w.acct(r); let mr = ok.and_then(|_| m2.pools.get_mut(&k).map(|p| p.receiver = a.clone()).ok_or("A12")); (ExecuteMsg::ChangeFeeReceiver { pool_key: pkey(&k), fee_receiver: Addr::unchecked(a) }, mr, "A12", "A14") }
            }
        }
        10 => {
            who = if r.chance(85) || init { w.m.admin.clone() } else { w.acct(r) };
            let ok = if who == w.m.admin { Ok(()) } else { Err("A12") };
            let fee = if init && r.chance(85) { *r.pick(&[0u64, 1, 100_000_000, 3_000_000_000, 10_000_000_000, 10_000_000_000, 100_000_000_000]) } else { *r.pick(&[0u64, 1, 100_000_000, 3_000_000_000, 10_000_000_000, 500_000_000_000, 999_999_999_999, 1_000_000_000_000, 1_000_000_000_001, u64::MAX]) };
            let t = if r.chance(30) && !w.m.tiers.is_empty() { *r.pick(&w.m.tiers) } else { (fee, *r.pick(&[1u16, 2, 3, 5, 10, 60, 100, 1, 2, 10, 0, 101, 99, 65535])) };
            if r.chance(72) || init {
                let mr = ok.and_then(|_| if t.1 == 0 || t.1 > 100 || t.0 >= 1_000_000_000_000 || m2.tiers.contains(&t) { Err("A20") } else { m2.tiers.push(t); Ok(()) });
                (ExecuteMsg::AddFeeTier { fee_tier: tier(t) }, mr, "A20", "A14")
            } else {
                let mr = ok.and_then(|_| match m2.tiers.iter().position(|x| *x == t) { Some(i) => { m2.tiers.remove(i); Ok(()) } None => Err("A20") });
                (ExecuteMsg::RemoveFeeTier { fee_tier: tier(t) }, mr, "A20", "A14")
            }
        }
        11 => {
            let (a, mut c) = (r.pick(&w.toks).to_string(), r.pick(&w.toks).to_string());
            if init { while a == c { c = r.pick(&w.toks).to_string(); } }
            let t = if w.m.tiers.is_empty() || r.chance(5) { (r.below(3), 1 + r.below(100) as u16) } else { *r.pick(&w.m.tiers) };
            let s = t.1 as i32;
            let mut tk = if w.moderate { r.range(-3000, 3000) as i32 / s * s } else { match r.below(5) { 0 => max_tick(s) - r.below(5) as i32 * s, 1 => -max_tick(s) + r.below(5) as i32 * s, _ => gen_tick(r) / s * s } };
            if r.chance(5) { tk += 1; }
            if r.chance(3) { tk = *r.pick(&[MAXT + 1, -MAXT - 1, i32::MAX, i32::MIN, MAXT, -MAXT]); }
            let inr = tk >= -MAXT && tk <= MAXT;
            let lo = if inr { tp(tk) } else { MINP }; let hi = if inr && tk + s <= MAXT { tp(tk + s) } else { MAXP };
            let price = match r.below(10) { 0 | 1 => hi - 1, 2 if !init => hi, 3 if !init => lo - 1, 4 if !init => hi + 1, 5 => lo + r.below128(hi - lo), _ => lo };
            let mr = m2.create_pool(&a, &c, t, price, tk, now_ms);
            (ExecuteMsg::CreatePool { token_0: a, token_1: c, fee_tier: tier(t), init_sqrt_price: SqrtPrice::new(price), init_tick: tk }, mr, "A15", "A14")
        }
        _ => {
            let k = match w.pool(r) { Some(k) => k, None => return (vec![], true) };
            who = if r.chance(70) { w.m.pools[&k].receiver.clone() } else { w.acct(r) };
            let p = m2.pools.get_mut(&k).unwrap();
            let mr = if p.receiver == who { let (x, y) = (p.px, p.py); p.px = 0; p.py = 0; m2.pay(&mut ms, &k.0, &who, x); m2.pay(&mut ms, &k.1, &who, y); Ok(()) } else { Err("A12") };
            (ExecuteMsg::WithdrawProtocolFee { pool_key: pkey(&k) }, mr, "A07,A12", "A07,A14")
        }
    };
    w.log.push(format!("{who} funds {funds:?} {msg:?}"));
    let mut d: Diffs = vec![];
    let ow0 = if id == "A21" { Some(owed(&w.st)) } else { None };
    let real = w.exec(&who, &funds, msg.clone());
    if let (Some(o0), Ok(rm)) = (&ow0, &real) {
        // what the pools owe may not grow by more than what this message paid in
        let (mut paid, mut out): (BTreeMap<String, B>, BTreeMap<String, B>) = Default::default();
        for (dn, a) in &funds { if !w.m.is_cw20(dn) { *paid.entry(dn.clone()).or_default() += b(*a); } }
        for x in rm { let (m, t, a) = match x { Msg::Pull { token, amount, .. } => (&mut paid, token, amount), Msg::Pay { token, amount, .. } => (&mut out, token, amount), Msg::Bank { denom, amount, .. } => (&mut out, denom, amount), _ => continue }; *m.entry(t.clone()).or_default() += b(*a); }
        let o1 = owed(&w.st);
        let z = B::zero(); let toks: BTreeSet<&String> = o1.keys().chain(o0.keys()).chain(out.keys()).collect();
        for t in toks {
            let g = |m: &BTreeMap<String, B>| *m.get(t).unwrap_or(&z);
            let (lhs, rhs) = (g(&o1) + (g(&out) << 448), g(o0) + (g(&paid) << 448) + (b(5) << 448) / e(11));
            if lhs > rhs { d.push(("A21".into(), format!("the pools owe and paid out {} millionths of {t} more than they held and received", ((lhs - rhs) * e(6)) >> 448))); }
        }
    }
    match (&real, &mr) {
        (Ok(rm), Ok(())) => {
            w.m = m2;
            if sorted(rm) != sorted(&ms) { d.push((tmsg.into(), format!("transfers {rm:?} instead of {ms:?}"))); }
            // tokens held by the contract never go below zero
            for (dn, a) in &funds { if !w.m.is_cw20(dn) && dn != "junk" { let e = w.ledger.entry(dn.clone()).or_default(); *e = e.wrapping_add(*a as i128); } }
            for x in rm { let (t, a) = match x { Msg::Pull { token, amount, .. } => (token, *amount as i128), Msg::Pay { token, amount, .. } => (token, (*amount as i128).wrapping_neg()), Msg::Bank { denom, amount, .. } => (denom, (*amount as i128).wrapping_neg()), _ => continue }; let e = w.ledger.entry(t.clone()).or_default(); *e = e.wrapping_add(a); }
            if w.moderate { if let Some((t, a)) = w.ledger.iter().find(|x| *x.1 < 0) { d.push(("A03,A05,A07,A14,A21".into(), format!("the contract would hold {a} of {t}"))); } }
            if kind == 11 && r.chance(30) {
                // a long-lived pool: accumulators about to wrap around
                let nk: Vec<PK> = w.m.pools.iter().filter(|x| x.1.ticks.is_empty() && x.1.gx == 0 && x.1.gy == 0 && x.1.liq == 0).map(|x| x.0.clone()).collect();
                for k in nk { let pk = pkey(&k).key(); let mut p: Pool = state::POOLS.load(&w.st, &pk).unwrap(); let g = u128::MAX - r.amt(100); let mp = w.m.pools.get_mut(&k).unwrap(); mp.gx = g; mp.gy = !g ^ r.amt(90); p.fee_growth_global_x = oraiswap_v3::fee_growth::FeeGrowth::new(mp.gx); p.fee_growth_global_y = oraiswap_v3::fee_growth::FeeGrowth::new(mp.gy); state::POOLS.save(&mut w.st, &pk, &p).unwrap(); }
            }
        }
        (Ok(rm), Err(e)) => { d.push((e.to_string(), format!("accepted (transfers {rm:?}), but it must fail"))); return (d, false); }
        (Err(()), Ok(())) => { if w.moderate { d.push((tref.into(), "refused, but it must succeed".into())); } return (d, false); }
        (Err(()), Err(_)) => {}
    }
    if let Some((q, k, xy, f)) = quoted {
        if let (Ok(rm), Some(q)) = (&real, &q) {
            let (ti, to) = if xy { (&k.0, &k.1) } else { (&k.1, &k.0) };
            let cin = if w.m.is_cw20(ti) { rm.iter().filter_map(|x| match x { Msg::Pull { token, amount, .. } if token == ti => Some(*amount), _ => None }).sum::<u128>() } else { f.get(ti).unwrap_or(&0) - rm.iter().filter_map(|x| match x { Msg::Bank { denom, amount, .. } if denom == ti => Some(*amount), _ => None }).sum::<u128>() };
            let cout = rm.iter().filter_map(|x| match x { Msg::Bank { denom, amount, .. } if denom == to => Some(*amount), Msg::Pay { token, amount, .. } if token == to => Some(*amount), _ => None }).sum::<u128>();
            let price = state::get_pool(&w.st, &pkey(&k)).map(|p| p.sqrt_price.get()).unwrap_or(0);
            if (q.amount_in.get(), q.amount_out.get(), q.target_sqrt_price.get()) != (cin, cout, price) { d.push(("A06".into(), format!("quote {:?} but the swap did {:?}", (q.amount_in, q.amount_out, q.target_sqrt_price), (cin, cout, price)))); }
            let mut allowed: Vec<Vec<u8>> = vec![state::POOLS.key(&pkey(&k).key()).to_vec()];
            for t in &q.ticks { if state::get_tick(&w.st, &pkey(&k), t.index).ok() != Some(*t) { d.push(("A06,A08".into(), format!("quoted tick {t:?} differs from the stored one"))); } allowed.push(state::TICKS.key(&state::tick_key(&pkey(&k), t.index)).to_vec()); }
            if let Some(x) = w.changed(&st0).iter().find(|x| !allowed.contains(x)) { d.push(("A06".into(), format!("the swap changed storage key {}", String::from_utf8_lossy(x)))); }
        } else if let (Ok(_), None) = (&real, &q) { d.push(("A06".into(), "the quote fails where the swap succeeds".into())); }
    }
    let _ = rquote;
    (d, true)
}
fn queries(w: &World, r: &mut Rng) -> Result<(), String> {
    let m = &w.m;
    let o = w.acct(r); let oa = Addr::unchecked(o.clone());
    let empty = vec![]; let ps = m.pos.get(&o).unwrap_or(&empty);
    let lim = match r.below(6) { 0 => None, 1 => Some(r.below(4) as u32), 2 => Some(100), 3 => Some(u32::MAX), 4 => Some(101), _ => Some(r.below(20) as u32) };
    let off = match r.below(5) { 0 => None, 1 => Some(ps.len() as u32), 2 => Some(u32::MAX - r.below(2) as u32), _ => Some(r.below(ps.len() as u64 + 2) as u32) };
    let from = off.unwrap_or(0) as usize; let take = lim.unwrap_or(100).min(100) as usize;
    let win: Vec<usize> = (0..ps.len()).skip(from).take(take).collect();
    let n: u32 = w.q(QueryMsg::UserPositionAmount { owner: oa.clone() }).map_err(|_| "UserPositionAmount failed")?;
    ck!(n as usize == ps.len(), "UserPositionAmount {n} instead of {}", ps.len());
    let v: Vec<Position> = w.q(QueryMsg::Positions { owner_id: oa.clone(), limit: lim, offset: off }).map_err(|_| "Positions failed")?;
    ck!(v.len() == win.len(), "Positions({o}, {lim:?}, {off:?}) returned {} items instead of {}", v.len(), win.len());
    for (x, i) in v.iter().zip(&win) { ck!(Some(x) == state::get_position(&w.st, &oa, *i as u32).ok().as_ref(), "Positions({o}, {lim:?}, {off:?}) item {i} is {x:?}"); }
    let v: TokensResponse = w.q(QueryMsg::Tokens { owner: oa.clone(), start_after: off, limit: lim }).map_err(|_| "Tokens failed")?;
    ck!(v.tokens.iter().map(|x| x.to_vec()).collect::<Vec<_>>() == win.iter().map(|i| Model::nftkey(&o, *i as u32)).collect::<Vec<_>>(), "Tokens({o}, {off:?}, {lim:?}) returned {} items {:?}", v.tokens.len(), v.tokens);
    let mut all: Vec<Vec<u8>> = m.pos.iter().flat_map(|(a, v)| (0..v.len() as u32).map(move |i| Model::nftkey(a, i))).collect(); all.sort();
    let sa = match r.below(4) { 0 => None, 1 => Some(o.as_bytes().to_vec()), _ => if all.is_empty() { None } else { Some(r.pick(&all).clone()) } };
    let v: TokensResponse = w.q(QueryMsg::AllTokens { start_after: sa.clone().map(Binary::from), limit: lim }).map_err(|_| "AllTokens failed")?;
    let exp: Vec<_> = all.iter().filter(|k| sa.as_ref().map(|s| *k > s).unwrap_or(true)).take(take).cloned().collect();
    ck!(v.tokens.iter().map(|x| x.to_vec()).collect::<Vec<_>>() == exp, "AllTokens({sa:?}, {lim:?}) returned {:?} instead of {exp:?}", v.tokens);
    if let Some((a, i)) = w.anypos(r) {
        let p: Position = w.q(QueryMsg::Position { owner_id: Addr::unchecked(a.clone()), index: i }).map_err(|_| "Position failed")?;
        ck!(Some(&p) == state::get_position(&w.st, &Addr::unchecked(a.clone()), i).ok().as_ref(), "Position({a},{i}) = {p:?}");
        let inc = r.b();
        let id = Binary::from(Model::nftkey(&a, i));
        let oo: OwnerOfResponse = w.q(QueryMsg::OwnerOf { token_id: id.clone(), include_expired: Some(inc) }).map_err(|_| "OwnerOf failed")?;
        let ap: Vec<_> = m.pos[&a][i as usize].approvals.iter().filter(|x| inc || !expired(&x.1, &w.block())).map(|x| (x.0.clone(), x.1)).collect();
        ck!(oo.owner == a && oo.approvals.iter().map(|x| (x.spender.to_string(), x.expires)).collect::<Vec<_>>() == ap, "OwnerOf({a}/{i}) = {oo:?}");
        let nf: NftInfoResponse = w.q(QueryMsg::NftInfo { token_id: id.clone() }).map_err(|_| "NftInfo failed")?;
        ck!(nf.extension == p, "NftInfo");
        let al: AllNftInfoResponse = w.q(QueryMsg::AllNftInfo { token_id: id, include_expired: Some(inc) }).map_err(|_| "AllNftInfo failed")?;
        ck!(al.access == oo && al.info == nf, "AllNftInfo");
    }
    let offp = r.below(ps.len() as u64 + 2) as u32;
    let pt: Result<Vec<PositionTick>, ()> = w.q(QueryMsg::PositionTicks { owner: oa.clone(), offset: offp });
    if offp as usize > ps.len() { ck!(pt.is_err(), "PositionTicks beyond the end succeeds"); } else {
        let pt = pt.map_err(|_| "PositionTicks failed")?;
        let mut exp = vec![];
        for q in &ps[offp as usize..] { for t in [q.lo, q.hi] { let x = &m.pools[&q.pool].ticks[&t]; exp.push((t, x.ox, x.oy)); } if exp.len() >= 372 { break; } }
        ck!(pt.iter().map(|x| (x.index, x.fee_growth_outside_x.get(), x.fee_growth_outside_y.get())).collect::<Vec<_>>() == exp, "PositionTicks({o},{offp}) = {pt:?}");
    }
    let inc = r.b();
    let sa = if r.b() { None } else { Some(w.acct(r)) };
    let v: ApprovedForAllResponse = w.q(QueryMsg::ApprovedForAll { owner: oa, include_expired: Some(inc), start_after: sa.clone().map(Addr::unchecked), limit: lim }).map_err(|_| "ApprovedForAll failed")?;
    let exp: Vec<_> = m.ops.iter().filter(|((a, b2), x)| *a == o && sa.as_ref().map(|s| b2 > s).unwrap_or(true) && (inc || !expired(x, &w.block()))).take(take).map(|((_, b2), x)| (b2.clone(), *x)).collect();
    ck!(v.operators.iter().map(|x| (x.spender.to_string(), x.expires)).collect::<Vec<_>>() == exp, "ApprovedForAll({o}, {sa:?}, {lim:?}) = {:?} instead of {exp:?}", v.operators);
    let ft: Vec<FeeTier> = w.q(QueryMsg::FeeTiers {}).map_err(|_| "FeeTiers failed")?;
    ck!(ft.iter().map(|t| (t.fee.get(), t.tick_spacing)).collect::<Vec<_>>() == m.tiers, "FeeTiers");
    let t = if m.tiers.is_empty() || r.b() { (r.below(3), 1) } else { *r.pick(&m.tiers) };
    let ex: bool = w.q(QueryMsg::FeeTierExist { fee_tier: tier(t) }).map_err(|_| "FeeTierExist failed")?;
    ck!(ex == m.tiers.contains(&t), "FeeTierExist");
    // pools, in key order
    let mut keys: Vec<(Vec<u8>, PK)> = m.pools.keys().map(|k| (pkey(k).key(), k.clone())).collect(); keys.sort();
    let sa = if keys.is_empty() || r.b() { None } else { Some(r.pick(&keys).clone()) };
    let v: Vec<PoolWithPoolKey> = w.q(QueryMsg::Pools { limit: lim, start_after: sa.as_ref().map(|x| pkey(&x.1)) }).map_err(|_| "Pools failed")?;
    let exp: Vec<_> = keys.iter().filter(|k| sa.as_ref().map(|s| k.0 > s.0).unwrap_or(true)).take(take).collect();
    ck!(v.len() == exp.len(), "Pools returned {} items instead of {}", v.len(), exp.len());
    for (x, y) in v.iter().zip(&exp) { ck!(unpk(&x.pool_key) == y.1 && state::get_pool(&w.st, &pkey(&y.1)).ok().as_ref() == Some(&x.pool), "Pools item {x:?}"); }
    if let Some(k) = w.pool(r) {
        let pk = pkey(&k); let s = k.3 as i32; let p = &m.pools[&k];
        let (a, c) = if r.b() { (k.0.clone(), k.1.clone()) } else { (k.1.clone(), k.0.clone()) };
        let rp: Pool = w.q(QueryMsg::Pool { token_0: a.clone(), token_1: c.clone(), fee_tier: tier((k.2, k.3)) }).map_err(|_| "Pool failed")?;
        ck!(state::get_pool(&w.st, &pk).ok() == Some(rp), "Pool");
        let v: Vec<PoolWithPoolKey> = w.q(QueryMsg::PoolsForPair { token_0: a, token_1: c }).map_err(|_| "PoolsForPair failed")?;
        let exp: Vec<PK> = m.tiers.iter().map(|t| (k.0.clone(), k.1.clone(), t.0, t.1)).filter(|k| m.pools.contains_key(k)).collect();
        ck!(v.iter().map(|x| unpk(&x.pool_key)).collect::<Vec<_>>() == exp, "PoolsForPair = {v:?}");
        let g = |r: &mut Rng| -> i32 { let mt = MAXT / s; let i = match r.below(6) { 0 => mt, 1 => -mt, 2 if !p.ticks.is_empty() => { let n = r.below(p.ticks.len() as u64) as usize; p.ticks.keys().nth(n).unwrap() / s } 3 => ((p.tick + MAXT) / s / 64 * 64 - MAXT / s + r.range(-1, 64) as i32).max(-mt).min(mt), _ => (p.tick / s + r.range(-130, 130) as i32).max(-mt).min(mt) }; i * s };
        let t = g(r);
        let b2: bool = w.q(QueryMsg::IsTickInitialized { key: pk.clone(), index: t }).map_err(|_| "IsTickInitialized failed")?;
        ck!(b2 == p.ticks.contains_key(&t), "IsTickInitialized({t}) = {b2}");
        let rt: Result<Tick, ()> = w.q(QueryMsg::Tick { key: pk.clone(), index: t });
        ck!(rt.is_ok() == p.ticks.contains_key(&t) && rt.ok() == state::get_tick(&w.st, &pk, t).ok(), "Tick({t})");
        let (mut lo, mut hi) = (g(r), g(r)); if lo > hi && r.chance(90) { std::mem::swap(&mut lo, &mut hi); }
        let cnt: Result<u32, ()> = w.q(QueryMsg::LiquidityTicksAmount { pool_key: pk.clone(), lower_tick: lo, upper_tick: hi });
        if lo > hi { ck!(cnt.is_err(), "LiquidityTicksAmount({lo},{hi}) succeeds"); } else { let exp = p.ticks.range(lo..=hi).count(); ck!(cnt == Ok(exp as u32), "LiquidityTicksAmount({lo},{hi}) = {cnt:?} instead of {exp} (spacing {s})"); }
        if lo <= hi {
            let xy = r.b();
            let tm: Vec<(u16, u64)> = w.q(QueryMsg::TickMap { pool_key: pk.clone(), lower_tick_index: lo, upper_tick_index: hi, x_to_y: xy }).map_err(|_| "TickMap failed")?;
            let pos = |t: i32| (t + MAXT / s * s) / s; // position of a tick in the map
            let _ = pos;
            let chunk = |t: i32| ((t / s + MAXT / s) / 64) as u16;
            let mut exp: BTreeMap<u16, u64> = BTreeMap::new();
            for t in p.ticks.keys() { if chunk(lo) <= chunk(*t) && chunk(*t) <= chunk(hi) { *exp.entry(chunk(*t)).or_default() |= 1u64 << ((t / s + MAXT / s) % 64); } }
            let got: BTreeMap<u16, u64> = tm.iter().filter(|x| x.1 != 0).cloned().collect();
            ck!(got == exp, "TickMap({lo},{hi},{xy}) = {tm:?} instead of {exp:?}");
            ck!(tm.windows(2).all(|w| if xy { w[0].0 > w[1].0 } else { w[0].0 < w[1].0 }), "TickMap order {tm:?}");
        }
        let mut idx: Vec<i32> = p.ticks.keys().cloned().filter(|_| r.b()).collect(); if r.chance(20) { idx.push(g(r)); }
        let lt: Result<Vec<LiquidityTick>, ()> = w.q(QueryMsg::LiquidityTicks { pool_key: pk, tick_indexes: idx.clone() });
        if idx.iter().all(|t| p.ticks.contains_key(t)) { let lt = lt.map_err(|_| "LiquidityTicks failed")?; ck!(lt.len() == idx.len() && lt.iter().zip(&idx).all(|(x, t)| x.index == *t && p.ticks[t].net == if x.sign { x.liquidity_change.get() as i128 } else { -(x.liquidity_change.get() as i128) }), "LiquidityTicks({idx:?}) = {lt:?}"); } else { ck!(lt.is_err(), "LiquidityTicks of an uninitialized tick succeeds"); }
    }
    Ok(())
}
/// many positions of one owner, so that page limits are reached
pub fn pages(r: &mut Rng) -> Result<(), String> {
    let mut w = World::new(r, "A19");
    w.moderate = true;
    let t = (1u64, 1u16);
    w.exec("admin", &Funds::new(), ExecuteMsg::AddFeeTier { fee_tier: tier(t) }).map_err(|_| "tier")?; w.m.tiers.push(t);
    w.exec("admin", &Funds::new(), ExecuteMsg::CreatePool { token_0: "tokena".into(), token_1: "tokenb".into(), fee_tier: tier(t), init_sqrt_price: SqrtPrice::new(tp(0)), init_tick: 0 }).map_err(|_| "pool")?;
    let now = w.now / 1_000_000; w.m.create_pool("tokena", "tokenb", t, tp(0), 0, now).unwrap();
    let k: PK = ("tokena".into(), "tokenb".into(), 1, 1);
    let n = 95 + r.below(140);
    for _ in 0..n {
        let a = if r.chance(93) { "alice" } else { "alice2" };
        let lo = r.range(-9000, 9000) as i32; let hi = lo + 1 + r.below(3000) as i32;
        let mut ms = vec![];
        let h = w.height;
        w.m.create_position(a, &k, lo, hi, 1000, 0, u128::MAX, h, &Funds::new(), &mut ms).unwrap();
        w.exec(a, &Funds::new(), ExecuteMsg::CreatePosition { pool_key: pkey(&k), lower_tick: lo, upper_tick: hi, liquidity_delta: Liquidity::new(1000), slippage_limit_lower: SqrtPrice::new(0), slippage_limit_upper: SqrtPrice::new(u128::MAX) }).map_err(|_| "create")?;
    }
    for _ in 0..25 { queries(&w, r)?; }
    Ok(())
}

/// a pool with more marked words than one page of the tick map holds
pub fn words(r: &mut Rng) -> Result<(), String> {
    let mut w = World::new(r, "A19");
    let s = *r.pick(&[1u16, 1, 2, 3]);
    let pk = pkey(&("tokena".into(), "tokenb".into(), 1, s));
    let top = (MAXT / s as i32 * 2) / 64;
    let n = (1600 + r.below(120) as i32).min(top);
    let from = r.range(0, (top - n) as i64) as i32;
    let mut exp: Vec<(u16, u64)> = vec![];
    for c in from..from + n {
        if r.chance(1) { continue; }
        let bit = r.below(64) as i32; let t = (c * 64 + bit - MAXT / s as i32) * s as i32;
        if t.abs() > MAXT / s as i32 * s as i32 { continue; }
        guard(|| state::flip_bitmap(&mut w.st, true, t, s, &pk)).and_then(|x| x.ok()).ok_or("flip_bitmap fails")?;
        exp.push((c as u16, 1u64 << bit));
    }
    for xy in [true, false] {
        let m = MAXT / s as i32 * s as i32;
        let tm: Vec<(u16, u64)> = w.q(QueryMsg::TickMap { pool_key: pk.clone(), lower_tick_index: -m, upper_tick_index: m, x_to_y: xy }).map_err(|_| "TickMap failed")?;
        let mut e = exp.clone(); if xy { e.reverse(); } e.truncate(1638);
        let dif = tm.iter().zip(&e).position(|(a, b)| a != b);
        ck!(tm == e, "TickMap of {} words (spacing {s}, x_to_y {xy}) returns {} items instead of {}, first difference {dif:?}", exp.len(), tm.len(), e.len());
    }
    Ok(())
}
