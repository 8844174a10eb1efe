//! Reference model of the whole contract, written from the property statements (ticks and positions in
//! ordered maps, no bitmap, no storage keys).
use crate::refmath::*;
use crate::util::*;
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{Addr, Api, BlockInfo};
use cw20::Expiration;
use std::collections::BTreeMap;

pub type PK = (String, String, u64, u16);
#[derive(Clone, PartialEq, Debug, Default)]
pub struct MTick { pub net: i128, pub gross: u128, pub ox: u128, pub oy: u128 }
#[derive(Clone, PartialEq, Debug, Default)]
pub struct MPool { pub liq: u128, pub price: u128, pub tick: i32, pub gx: u128, pub gy: u128, pub px: u128, pub py: u128, pub start: u64, pub receiver: String, pub ticks: BTreeMap<i32, MTick> }
#[derive(Clone, PartialEq, Debug)]
pub struct MPos { pub pool: PK, pub liq: u128, pub lo: i32, pub hi: i32, pub ix: u128, pub iy: u128, pub owed: (u128, u128), pub block: u64, pub approvals: Vec<(String, Expiration)>,
    /// growth collected while the current tick was inside the range, since the position was opened / last paid (mod 2^128)
    pub acc: (u128, u128), pub acc_at: (u128, u128) }
#[derive(Clone, PartialEq, Debug)]
pub enum Msg { Pull { token: String, from: String, amount: u128 }, Pay { token: String, to: String, amount: u128 }, Bank { denom: String, to: String, amount: u128 }, Other(String) }
#[derive(Clone, Default)]
pub struct Model { pub admin: String, pub pfee: u64, pub tiers: Vec<(u64, u16)>, pub pools: BTreeMap<PK, MPool>, pub pos: BTreeMap<String, Vec<MPos>>, pub ops: BTreeMap<(String, String), Expiration>, pub maxsteps: u32 }
/// why the model refuses: the properties a success would break
pub type ME = &'static str;
pub const OVF: ME = "*";
pub fn expired(e: &Expiration, b: &BlockInfo) -> bool { match e { Expiration::AtHeight(h) => b.height >= *h, Expiration::AtTime(t) => b.time >= *t, Expiration::Never {} => false } }
#[derive(Clone, Debug, PartialEq)]
pub struct SwapRes { pub ain: u128, pub aout: u128, pub price: u128, pub crossed: Vec<i32>, pub pool: MPool, pub steps: Vec<(i32, u128, u128)> }

fn add(a: u128, c: u128) -> Result<u128, ME> { a.checked_add(c).ok_or(OVF) }
impl Model {
    pub fn is_cw20(&self, t: &str) -> bool {
        thread_local!(static C: std::cell::RefCell<BTreeMap<String, bool>> = Default::default());
        if let Some(x) = C.with(|c| c.borrow().get(t).cloned()) { return x; }
        let x = MockApi::default().addr_validate(t).is_ok();
        C.with(|c| c.borrow_mut().insert(t.into(), x));
        x
    }
    pub fn pay(&self, m: &mut Vec<Msg>, token: &str, to: &str, amount: u128) {
        if amount == 0 { return; }
        m.push(if self.is_cw20(token) { Msg::Pay { token: token.into(), to: to.into(), amount } } else { Msg::Bank { denom: token.into(), to: to.into(), amount } });
    }
    pub fn charge(&self, m: &mut Vec<Msg>, token: &str, from: &str, amount: u128, funds: &BTreeMap<String, u128>) -> Result<(), ME> {
        if self.is_cw20(token) { if amount != 0 { m.push(Msg::Pull { token: token.into(), from: from.into(), amount }); } return Ok(()); }
        let have = *funds.get(token).unwrap_or(&0);
        if have < amount { return Err("A14"); }
        if have > amount { m.push(Msg::Bank { denom: token.into(), to: from.into(), amount: have - amount }); }
        Ok(())
    }
    /// fee growth inside [lo, hi) from the tick records
    pub fn inside(p: &MPool, lo: i32, hi: i32) -> (u128, u128) {
        let (l, u) = (&p.ticks[&lo], &p.ticks[&hi]);
        let f = |g: u128, ol: u128, ou: u128| { let below = if p.tick >= lo { ol } else { g.wrapping_sub(ol) }; let above = if p.tick < hi { ou } else { g.wrapping_sub(ou) }; g.wrapping_sub(below).wrapping_sub(above) };
        (f(p.gx, l.ox, u.ox), f(p.gy, l.oy, u.oy))
    }
    fn add_fee(p: &mut MPool, fee: u128, in_x: bool, pfee: u64) -> Result<u128, ME> {
        let prot = small(cl(b(fee) * b(pfee as u128), e(12))).ok_or(OVF)?;
        if prot > fee { return Err("A07"); }
        if fee == 0 || p.liq == 0 { return Ok(0); }
        let g = growth(p.liq, fee - prot).ok_or(OVF)?;
        if in_x { p.gx = p.gx.wrapping_add(g); p.px = add(p.px, prot)?; } else { p.gy = p.gy.wrapping_add(g); p.py = add(p.py, prot)?; }
        Ok(g)
    }
    pub fn calc_swap(&self, k: &PK, xy: bool, amount: u128, by_in: bool, limit: u128) -> Result<SwapRes, ME> {
        if amount == 0 { return Err("A05"); }
        let mut p = self.pools.get(k).ok_or("A05")?.clone();
        if xy && (p.price <= limit || limit > MAXP) || !xy && (p.price >= limit || limit < MINP) { return Err("A05"); }
        let (fee, s) = (k.2, k.3 as i32);
        let maxt = max_tick(s);
        let mut rem = amount; let (mut tin, mut tout) = (0u128, 0u128);
        let mut crossed = vec![]; let mut steps = vec![];
        let mut n = 0;
        while rem != 0 {
            n += 1; if n > self.maxsteps { return Err("LONG"); }
            // nearest initialized tick within 256 spacings, else the end of the search range
            let idx = p.tick / s;
            let (t, init) = if xy { let lim = (idx - 256).max(-(MAXT / s)) * s; match p.ticks.range(lim..=p.tick).next_back() { Some((t, _)) => (*t, true), None => (lim, false) } }
                else { let lim = (idx + 256).min(MAXT / s) * s; match if p.tick < lim { p.ticks.range(p.tick + 1..=lim).next() } else { None } { Some((t, _)) => (*t, true), None => (lim, false) } };
            if !init && t == p.tick { return Err("A05"); }
            let tpr = tp(t);
            let (target, tick) = if xy && tpr > limit || !xy && tpr <= limit { (tpr, Some((t, init))) } else { (limit, None) };
            let st = step(p.price, target, p.liq, rem, by_in, fee).ok_or(OVF)?;
            rem = if by_in { rem.checked_sub(add(st.ain, st.fee)?).ok_or(OVF)? } else { rem.checked_sub(st.aout).ok_or(OVF)? };
            let (t0, gx0, gy0) = (p.tick, p.gx, p.gy);
            Self::add_fee(&mut p, st.fee, xy, self.pfee)?;
            steps.push((t0, p.gx.wrapping_sub(gx0), p.gy.wrapping_sub(gy0)));
            p.price = st.next;
            tin = add(tin, add(st.ain, st.fee)?)?; tout = add(tout, st.aout)?;
            if p.price == limit && rem != 0 { return Err("A05"); }
            match tick {
                Some((t, init)) if st.next == target => {
                    let en = enough(rem, p.price, p.liq, fee, by_in, xy).ok_or(OVF)?;
                    if init {
                        if !xy || en {
                            // cross
                            let tk = p.ticks.get_mut(&t).unwrap();
                            tk.ox = p.gx.wrapping_sub(tk.ox); tk.oy = p.gy.wrapping_sub(tk.oy);
                            let net = tk.net;
                            let nl = if xy { p.liq as i128 - net } else { p.liq as i128 + net };
                            if nl < 0 { return Err("A09"); }
                            p.liq = nl as u128;
                            crossed.push(t);
                        } else if rem != 0 {
                            if by_in { let (gx0, gy0) = (p.gx, p.gy); Self::add_fee(&mut p, rem, xy, self.pfee)?; steps.push((t0, p.gx.wrapping_sub(gx0), p.gy.wrapping_sub(gy0))); tin = add(tin, rem)?; }
                            rem = 0;
                        }
                    }
                    p.tick = if xy && en { t - s } else { t };
                }
                _ => { let t = tick_of(p.price, s); if t < -maxt { return Err(OVF); } p.tick = if xy { t.min(p.tick) } else { t }; }
            }
            if xy && p.tick <= -maxt || !xy && p.tick >= maxt { return Err("A05"); }
        }
        if tout == 0 { return Err("A05"); }
        Ok(SwapRes { ain: tin, aout: tout, price: p.price, crossed, pool: p, steps })
    }
    pub fn apply_swap(&mut self, k: &PK, r: &SwapRes) {
        for v in self.pos.values_mut() { for q in v.iter_mut() { if q.pool == *k { for (t, dx, dy) in &r.steps { if q.lo <= *t && *t < q.hi { q.acc.0 = q.acc.0.wrapping_add(*dx); q.acc.1 = q.acc.1.wrapping_add(*dy); } } } } }
        self.pools.insert(k.clone(), r.pool.clone());
    }
    pub fn swap(&mut self, who: &str, k: &PK, xy: bool, amount: u128, by_in: bool, limit: u128, funds: &BTreeMap<String, u128>, m: &mut Vec<Msg>) -> Result<SwapRes, ME> {
        let r = self.calc_swap(k, xy, amount, by_in, limit)?;
        let (ti, to) = if xy { (&k.0, &k.1) } else { (&k.1, &k.0) };
        self.charge(m, ti, who, r.ain, funds)?;
        self.pay(m, to, who, r.aout);
        self.apply_swap(k, &r);
        Ok(r)
    }
    fn tick_delta(p: &mut MPool, t: i32, l: u128, upper: bool, addl: bool, cap: u128) -> Result<(), ME> {
        let tk = p.ticks.get_mut(&t).unwrap();
        if addl { tk.gross = add(tk.gross, l)?; if tk.gross >= cap { return Err("A09"); } } else { tk.gross = tk.gross.checked_sub(l).ok_or("A09")?; }
        let d = if addl ^ upper { l as i128 } else { -(l as i128) };
        tk.net += d;
        Ok(())
    }
    pub fn create_position(&mut self, who: &str, k: &PK, lo: i32, hi: i32, l: u128, sl: u128, su: u128, block: u64, funds: &BTreeMap<String, u128>, m: &mut Vec<Msg>) -> Result<(), ME> {
        if l == 0 || lo == hi { return Err("A09"); }
        let p = self.pools.get_mut(k).ok_or("A15")?;
        let s = k.3 as i32;
        if p.price < sl || p.price > su { return Err("A13"); }
        for t in [lo, hi] {
            if p.ticks.contains_key(&t) { continue; }
            if t % s != 0 || t < -max_tick(s) || t > max_tick(s) { return Err("A10"); }
            let (gx, gy, below) = (p.gx, p.gy, t <= p.tick);
            p.ticks.insert(t, MTick { ox: if below { gx } else { 0 }, oy: if below { gy } else { 0 }, ..Default::default() });
        }
        let cap = max_liq(s);
        if l >= cap { return Err("A09"); }
        Self::tick_delta(p, lo, l, false, true, cap)?;
        Self::tick_delta(p, hi, l, true, true, cap)?;
        if lo > hi { return Err("A09"); }
        let (x, y) = amounts(p.tick, p.price, l, true, lo, hi).ok_or(OVF)?;
        if lo <= p.tick && p.tick < hi { p.liq = add(p.liq, l)?; }
        let (ix, iy) = Self::inside(p, lo, hi);
        self.pos.entry(who.into()).or_default().push(MPos { pool: k.clone(), liq: l, lo, hi, ix, iy, owed: (0, 0), block, approvals: vec![], acc: (0, 0), acc_at: (ix, iy) });
        self.charge(m, &k.0, who, x, funds)?; self.charge(m, &k.1, who, y, funds)?;
        Ok(())
    }
    fn settle(p: &MPool, q: &mut MPos) -> Result<(), ME> {
        let (ix, iy) = Self::inside(p, q.lo, q.hi);
        q.owed.0 = add(q.owed.0, to_fee(ix.wrapping_sub(q.ix), q.liq).ok_or(OVF)?)?;
        q.owed.1 = add(q.owed.1, to_fee(iy.wrapping_sub(q.iy), q.liq).ok_or(OVF)?)?;
        q.ix = ix; q.iy = iy;
        Ok(())
    }
    pub fn claim(&mut self, who: &str, i: u32, m: &mut Vec<Msg>) -> Result<(), ME> {
        let q = self.pos.get_mut(who).and_then(|v| v.get_mut(i as usize)).ok_or("A12")?;
        Self::settle(&self.pools[&q.pool], q)?;
        let (o, k) = (q.owed, q.pool.clone()); q.owed = (0, 0);
        self.pay(m, &k.0, who, o.0); self.pay(m, &k.1, who, o.1);
        Ok(())
    }
    pub fn swap_remove(&mut self, who: &str, i: u32) -> MPos { let v = self.pos.get_mut(who).unwrap(); v.swap_remove(i as usize) }
    pub fn remove(&mut self, who: &str, i: u32, m: &mut Vec<Msg>) -> Result<(), ME> {
        let mut q = self.pos.get(who).and_then(|v| v.get(i as usize)).ok_or("A12")?.clone();
        let p = self.pools.get_mut(&q.pool).unwrap();
        let cap = max_liq(q.pool.3 as i32);
        Self::tick_delta(p, q.lo, q.liq, false, false, cap)?;
        Self::tick_delta(p, q.hi, q.liq, true, false, cap)?;
        Self::settle(p, &mut q)?;
        let (x, y) = amounts(p.tick, p.price, q.liq, false, q.lo, q.hi).ok_or(OVF)?;
        if q.lo <= p.tick && p.tick < q.hi { p.liq = p.liq.checked_sub(q.liq).ok_or("A09")?; }
        for t in [q.lo, q.hi] { if p.ticks[&t].gross == 0 { p.ticks.remove(&t); } }
        let (x, y) = (add(x, q.owed.0)?, add(y, q.owed.1)?);
        self.swap_remove(who, i);
        self.pay(m, &q.pool.0, who, x); self.pay(m, &q.pool.1, who, y);
        Ok(())
    }
    pub fn give(&mut self, from: &str, i: u32, to: &str) -> Result<(), ME> {
        if self.pos.get(from).map(|v| v.len()).unwrap_or(0) <= i as usize { return Err("A12"); }
        let mut q = self.swap_remove(from, i); q.approvals.clear();
        self.pos.entry(to.into()).or_default().push(q);
        Ok(())
    }
    /// owner and index named by a token id
    pub fn by_id(&self, id: &[u8]) -> Option<(String, u32)> {
        for (a, v) in &self.pos { for i in 0..v.len() as u32 { let mut k = a.as_bytes().to_vec(); k.extend_from_slice(&i.to_be_bytes()); if k == id { return Some((a.clone(), i)); } } }
        None
    }
    pub fn op_ok(&self, owner: &str, who: &str, blk: &BlockInfo) -> bool { self.ops.get(&(owner.into(), who.into())).map(|x| !expired(x, blk)).unwrap_or(false) }
    pub fn can_send(&self, owner: &str, i: u32, who: &str, blk: &BlockInfo) -> bool {
        owner == who || self.op_ok(owner, who, blk) || self.pos[owner][i as usize].approvals.iter().any(|(a, x)| a == who && !expired(x, blk))
    }
    pub fn approve(&mut self, who: &str, spender: &str, id: &[u8], set: Option<Expiration>, blk: &BlockInfo) -> Result<(), ME> {
        let (o, i) = self.by_id(id).ok_or("A12")?;
        if o != who && !self.op_ok(&o, who, blk) { return Err("A12"); }
        let a = &mut self.pos.get_mut(&o).unwrap()[i as usize].approvals;
        a.retain(|(s, _)| s != spender);
        if let Some(x) = set { if expired(&x, blk) { return Err("A12"); } a.push((spender.into(), x)); }
        Ok(())
    }
    pub fn create_pool(&mut self, t0: &str, t1: &str, tier: (u64, u16), price: u128, tick: i32, now: u64) -> Result<(), ME> {
        if !self.tiers.contains(&tier) || t0 == t1 { return Err("A15"); }
        let s = tier.1 as i32;
        if tick % s != 0 || tick > max_tick(s) || tick < -max_tick(s) { return Err("A15"); }
        let k = (t0.min(t1).to_string(), t0.max(t1).to_string(), tier.0, tier.1);
        if self.pools.contains_key(&k) { return Err("A15"); }
        let lo = tp(tick);
        let ok = if tick + s > MAXT { price >= lo && price <= MAXP } else { price >= lo && price < tp(tick + s) };
        if !ok { return Err("A15"); }
        self.pools.insert(k, MPool { price, tick, start: now, receiver: self.admin.clone(), ..Default::default() });
        Ok(())
    }
    /// statements about the model state itself: they hold for the contract because it equals the model
    pub fn invariants(&self) -> Result<(), (ME, String)> {
        for (k, p) in &self.pools {
            let mut liq = B::zero();
            let mut g: BTreeMap<i32, (B, i128)> = BTreeMap::new();
            for (a, v) in &self.pos { for (i, q) in v.iter().enumerate() { if q.pool == *k {
                if q.lo <= p.tick && p.tick < q.hi { liq = liq + b(q.liq); }
                let x = g.entry(q.lo).or_default(); x.0 = x.0 + b(q.liq); x.1 += q.liq as i128;
                let x = g.entry(q.hi).or_default(); x.0 = x.0 + b(q.liq); x.1 -= q.liq as i128;
                let (ix, iy) = Self::inside(p, q.lo, q.hi);
                if ix.wrapping_sub(q.acc_at.0) != q.acc.0 || iy.wrapping_sub(q.acc_at.1) != q.acc.1 { return Err(("A08", format!("growth inside position {a}/{i} is {:?} but {:?} was collected in range", (ix.wrapping_sub(q.acc_at.0), iy.wrapping_sub(q.acc_at.1)), q.acc))); }
            } } }
            if liq != b(p.liq) { return Err(("A09", format!("pool {k:?} liquidity {} but positions in range sum to {liq} at tick {}", p.liq, p.tick))); }
            for (t, x) in &g { match p.ticks.get(t) { Some(tk) if b(tk.gross) == x.0 && tk.net == x.1 => {}, o => return Err(("A09", format!("tick {t}: {o:?} vs {x:?}"))) } }
            if g.len() != p.ticks.len() { return Err(("A10", "a tick without positions".into())); }
        }
        Ok(())
    }
    pub fn nftkey(a: &str, i: u32) -> Vec<u8> { let mut k = a.as_bytes().to_vec(); k.extend_from_slice(&i.to_be_bytes()); k }
    #[allow(dead_code)]
    pub fn addr(a: &str) -> Addr { Addr::unchecked(a) }
}
