//! Client SDK (wasm crate) against the contract, on inputs where both succeed.
use crate::refmath::*;
use crate::util::*;
use decimal::Decimal;
use oraiswap_v3 as c;
use oraiswap_v3_wasm as s;
use c::fee_growth::FeeGrowth as CG;
use c::liquidity::Liquidity as CL;
use c::percentage::Percentage as CP;
use c::sqrt_price::SqrtPrice as CS;
use c::token_amount::TokenAmount as CT;
use s::fee_growth::FeeGrowth as SG;
use s::liquidity::Liquidity as SL;
use s::percentage::Percentage as SP;
use s::sqrt_price::SqrtPrice as SS;
use s::token_amount::TokenAmount as ST;
type R = Result<(), String>;
macro_rules! both { ($what:expr, $a:expr, $b:expr) => { if let (Some(Ok(x)), Some(Ok(y))) = (guard(|| $a.map_err(|_| ())), guard(|| $b.map_err(|_| ()))) { ck!(x == y, "{}: contract {:?}, SDK {:?}", $what, x, y); } } }
macro_rules! bothv { ($what:expr, $a:expr, $b:expr) => { if let (Some(x), Some(y)) = (guard(|| $a), guard(|| $b)) { ck!(x == y, "{}: contract {:?}, SDK {:?}", $what, x, y); } } }

pub fn math(r: &mut Rng) -> R {
    let (p, q) = { let p = gen_price(r); let q = match r.below(3) { 0 => gen_price(r), _ => near_price(r, p) }; (p, q) };
    let (bl, ba) = (*r.pick(&[128u32, 100, 70, 40]), *r.pick(&[128u32, 90, 60, 30])); let l = r.amt(bl); let a = r.amt(ba);
    let fee = *r.pick(&[0u64, 1, 100_000_000, 10_000_000_000, 500_000_000_000, 999_999_999_999, 1_000_000_000_000]);
    let (by_in, xy, up) = (r.b(), r.b(), r.b());
    let i = format!("(p={p} q={q} l={l} a={a} fee={fee} by_in={by_in} xy={xy} up={up})");
    match r.below(9) {
        0 | 1 => { both!(format!("compute_swap_step{i}"), c::compute_swap_step(CS::new(p), CS::new(q), CL::new(l), CT::new(a), by_in, CP::new(fee)).map(|x| (x.next_sqrt_price.get(), x.amount_in.get(), x.amount_out.get(), x.fee_amount.get())), s::clamm::compute_swap_step(SS::new(p), SS::new(q), SL::new(l), ST::new(a), by_in, SP::new(fee)).map(|x| (x.next_sqrt_price.get(), x.amount_in.get(), x.amount_out.get(), x.fee_amount.get()))); }
        2 => {
            both!(format!("get_delta_x{i}"), c::get_delta_x(CS::new(p), CS::new(q), CL::new(l), up).map(|x| x.get()), s::clamm::get_delta_x(SS::new(p), SS::new(q), SL::new(l), up).map(|x| x.get()));
            both!(format!("get_delta_y{i}"), c::get_delta_y(CS::new(p), CS::new(q), CL::new(l), up).map(|x| x.get()), s::clamm::get_delta_y(SS::new(p), SS::new(q), SL::new(l), up).map(|x| x.get()));
            both!(format!("get_next_sqrt_price_x_up{i}"), c::get_next_sqrt_price_x_up(CS::new(p), CL::new(l), CT::new(a), up).map(|x| x.get()), s::clamm::get_next_sqrt_price_x_up(SS::new(p), SL::new(l), ST::new(a), up).map(|x| x.get()));
            both!(format!("is_enough_amount{i}"), c::is_enough_amount_to_change_price(CT::new(a), CS::new(p), CL::new(l), CP::new(fee), by_in, xy), s::clamm::is_enough_amount_to_change_price(ST::new(a), SS::new(p), SL::new(l), SP::new(fee), by_in, xy));
            bothv!(format!("calculate_min_amount_out{i}"), c::calculate_min_amount_out(CT::new(a), CP::new(fee)).get(), s::clamm::calculate_min_amount_out(ST::new(a), SP::new(fee)).get());
        }
        3 => {
            let t = [gen_tick(r), gen_tick(r), gen_tick(r)];
            both!(format!("calculate_amount_delta {t:?}{i}"), c::calculate_amount_delta(t[0], CS::new(p), CL::new(l), up, t[1], t[2]).map(|x| (x.0.get(), x.1.get(), x.2)), s::clamm::calculate_amount_delta(t[0], SS::new(p), SL::new(l), up, t[1], t[2]).map(|x| (x.x.get(), x.y.get(), x.update_liquidity)));
            let sp = 1 + r.below(100) as u16;
            both!(format!("check_ticks {t:?} {sp}"), c::check_ticks(t[0], t[1], sp).map_err(|_| ()), s::clamm::check_ticks(t[0], t[1], sp).map_err(|_| ()));
            both!(format!("check_tick {t:?} {sp}"), c::check_tick(t[0], sp).map_err(|_| ()), s::clamm::check_tick(t[0], sp).map_err(|_| ()));
            ck!(guard(|| c::check_tick(t[0], sp).is_ok()) == guard(|| s::clamm::check_tick(t[0], sp).is_ok()), "check_tick({}, {sp}) verdict differs", t[0]);
            bothv!(format!("max_liquidity_per_tick {sp}"), c::calculate_max_liquidity_per_tick(sp).get(), s::clamm::calculate_max_liquidity_per_tick(sp).get());
            let (cm, sm) = ((c::sqrt_price::get_max_tick(sp), c::sqrt_price::get_min_tick(sp)), (s::sqrt_price::get_max_tick(sp), s::sqrt_price::get_min_tick(sp)));
            ck!(cm == sm, "tick bounds of spacing {sp}: contract {cm:?}, SDK {sm:?}");
            bothv!(format!("price bounds {sp}"), (c::sqrt_price::get_max_sqrt_price(sp).get(), c::sqrt_price::get_min_sqrt_price(sp).get()), (s::sqrt_price::get_max_sqrt_price(sp).get(), s::sqrt_price::get_min_sqrt_price(sp).get()));
        }
        4 => {
            let t = gen_tick(r); let sp = 1 + r.below(100) as u16;
            both!(format!("calculate_sqrt_price {t}"), c::sqrt_price::calculate_sqrt_price(t).map(|x| x.get()), s::sqrt_price::calculate_sqrt_price(t).map(|x| x.get()));
            both!(format!("get_tick_at_sqrt_price {p} {sp}"), c::log::get_tick_at_sqrt_price(CS::new(p), sp), s::log::get_tick_at_sqrt_price(SS::new(p), sp));
            let pp = if r.b() { tp(t) } else { near_price(r, tp(t)) };
            both!(format!("get_tick_at_sqrt_price {pp} {sp}"), c::log::get_tick_at_sqrt_price(CS::new(pp), sp), s::log::get_tick_at_sqrt_price(SS::new(pp), sp));
            both!(format!("check_tick_to_sqrt_price_relationship {t} {sp} {pp}"), c::sqrt_price::check_tick_to_sqrt_price_relationship(t / sp as i32 * sp as i32, sp, CS::new(pp)), s::check_tick_to_sqrt_price_relationship(t / sp as i32 * sp as i32, sp, SS::new(pp)));
        }
        5 => {
            let g: Vec<u128> = (0..8).map(|_| r.amt(128)).collect(); let t = [gen_tick(r), gen_tick(r), gen_tick(r)];
            let ci = c::fee_growth::calculate_fee_growth_inside(t[0], CG::new(g[0]), CG::new(g[1]), t[1], CG::new(g[2]), CG::new(g[3]), t[2], CG::new(g[4]), CG::new(g[5]));
            let si = s::fee_growth::calculate_fee_growth_inside(t[0], SG::new(g[0]), SG::new(g[1]), t[1], SG::new(g[2]), SG::new(g[3]), t[2], SG::new(g[4]), SG::new(g[5]));
            ck!((ci.0.get(), ci.1.get()) == (si.0.get(), si.1.get()), "calculate_fee_growth_inside({t:?}, {g:?}): contract {ci:?}, SDK {si:?}");
            both!(format!("calculate_fee {t:?} {g:?} {l}"), (|| { Ok::<_, c::ContractError>((ci.0.unchecked_sub(CG::new(g[6])).to_fee(CL::new(l))?.get(), ci.1.unchecked_sub(CG::new(g[7])).to_fee(CL::new(l))?.get())) })(), s::calculate_fee(t[0], SG::new(g[0]), SG::new(g[1]), t[1], SG::new(g[2]), SG::new(g[3]), t[2], SG::new(g[4]), SG::new(g[5]), SG::new(g[6]), SG::new(g[7]), SL::new(l)).map(|x| (x.x.get(), x.y.get())));
            both!(format!("from_fee {l} {a}"), CG::from_fee(CL::new(l), CT::new(a)).map(|x| x.get()), SG::from_fee(SL::new(l), ST::new(a)).map(|x| x.get()));
            both!(format!("to_fee {l} {}", g[0]), CG::new(g[0]).to_fee(CL::new(l)).map(|x| x.get()), SG::new(g[0]).to_fee(SL::new(l)).map(|x| x.get()));
            bothv!("unchecked", (CG::new(g[0]).unchecked_add(CG::new(g[1])).get(), CG::new(g[0]).unchecked_sub(CG::new(g[1])).get()), (SG::new(g[0]).unchecked_add(SG::new(g[1])).get(), SG::new(g[0]).unchecked_sub(SG::new(g[1])).get()));
        }
        6 => {
            let (mut t0, mut t1) = (gen_tick(r), gen_tick(r)); if t0 > t1 { std::mem::swap(&mut t0, &mut t1); }
            let cp = match r.below(3) { 0 => p, 1 => near_price(r, tp(t0)), _ => { let (x, y) = (tp(t0), tp(t1)); x + r.below128(y - x + 1) } };
            both!(format!("get_liquidity_by_x {a} {t0} {t1} {cp} {up}"), c::logic::get_liquidity_by_x(CT::new(a), t0, t1, CS::new(cp), up).map(|x| (x.l.get(), x.amount.get())), s::get_liquidity_by_x(ST::new(a), t0, t1, SS::new(cp), up).map(|x| (x.l.get(), x.amount.get())));
            both!(format!("get_liquidity_by_y {a} {t0} {t1} {cp} {up}"), c::logic::get_liquidity_by_y(CT::new(a), t0, t1, CS::new(cp), up).map(|x| (x.l.get(), x.amount.get())), s::get_liquidity_by_y(ST::new(a), t0, t1, SS::new(cp), up).map(|x| (x.l.get(), x.amount.get())));
            both!(format!("calculate_x {i}"), c::logic::calculate_x(CS::new(p), CS::new(q), CL::new(l), up).map(|x| x.get()), s::calculate_x(SS::new(p), SS::new(q), SL::new(l), up).map(|x| x.get()));
            both!(format!("calculate_y {i}"), c::logic::calculate_y(CS::new(p), CL::new(l), up).map(|x| x.get()), s::calculate_y(SS::new(p), SL::new(l), up).map(|x| x.get()));
        }
        7 => {
            // Pool::update_tick with and without an initialized tick
            let sp = *r.pick(&[1u16, 2, 10, 100]); let cur = gen_tick(r) / sp as i32 * sp as i32; let idx = (cur / sp as i32 + r.range(-3, 3) as i32) * sp as i32;
            let next = if r.b() { q } else { p };
            let (ch, sg) = (r.amt(128), r.b());
            let kind = r.below(3);
            let mut cpool = c::Pool { liquidity: CL::new(l), sqrt_price: CS::new(p), current_tick_index: cur, ..Default::default() };
            let mut spool = s::Pool { liquidity: SL::new(l), sqrt_price: SS::new(p), current_tick_index: cur, ..Default::default() };
            let mut ct = match kind { 0 => c::UpdatePoolTick::NoTick, 1 => c::UpdatePoolTick::TickUninitialized(idx), _ => c::UpdatePoolTick::TickInitialized(c::Tick { index: idx, sign: sg, liquidity_change: CL::new(ch), ..Default::default() }) };
            let mut stt = match kind { 0 => s::UpdatePoolTick::NoTick, 1 => s::UpdatePoolTick::TickUninitialized(idx), _ => s::UpdatePoolTick::TickInitialized(s::LiquidityTick { index: idx, sign: sg, liquidity_change: SL::new(ch) }) };
            let cr = guard(|| cpool.update_tick(c::SwapResult { next_sqrt_price: CS::new(next), amount_in: CT::new(1), amount_out: CT::new(1), fee_amount: CT::new(0) }, CS::new(q), &mut ct, CT::new(a), by_in, xy, 5, CP::new(0), c::FeeTier { fee: CP::new(fee), tick_spacing: sp }).map(|x| (x.0.get(), x.1.get(), x.2)).map_err(|_| ()));
            let sr = guard(|| spool.update_tick(s::clamm::SwapResult { next_sqrt_price: SS::new(next), amount_in: ST::new(1), amount_out: ST::new(1), fee_amount: ST::new(0) }, SS::new(q), &mut stt, ST::new(a), by_in, xy, 5, s::FeeTier { fee: SP::new(fee), tick_spacing: sp }).map(|x| (x.0.get(), x.1.get(), x.2)).map_err(|_| ()));
            if let (Some(Ok(x)), Some(Ok(y))) = (cr, sr) { ck!(x == y && cpool.current_tick_index == spool.current_tick_index && cpool.liquidity.get() == spool.liquidity.get(), "update_tick next={next} cur={cur} idx={idx} kind={kind} sp={sp}{i}: contract {x:?} tick {} liq {}, SDK {y:?} tick {} liq {}", cpool.current_tick_index, cpool.liquidity, spool.current_tick_index, spool.liquidity); }
            let (tu, tl) = (gen_tick(r), gen_tick(r));
            let (mut cpool, mut spool) = (c::Pool { liquidity: CL::new(l), sqrt_price: CS::new(p), current_tick_index: cur, ..Default::default() }, s::Pool { liquidity: SL::new(l), sqrt_price: SS::new(p), current_tick_index: cur, ..Default::default() });
            let cr = guard(|| cpool.update_liquidity(CL::new(ch), up, tu, tl).map(|x| (x.0.get(), x.1.get())).map_err(|_| ()));
            let sr = guard(|| spool.update_liquidity(SL::new(ch), up, tu, tl).map(|x| (x.0.get(), x.1.get())).map_err(|_| ()));
            if let (Some(Ok(x)), Some(Ok(y))) = (cr, sr) { ck!(x == y && cpool.liquidity.get() == spool.liquidity.get(), "update_liquidity {ch} {tu} {tl} {cur}{i}: contract {x:?}, SDK {y:?}"); }
        }
        _ => tickmap(r)?,
    }
    Ok(())
}
/// random bitmap, contract search against the naive answer (A10) and against the SDK (A17)
fn bitmap(r: &mut Rng) -> (crate::world::Mem, s::Tickmap, Vec<i32>, u16, c::PoolKey) {
    let sp = *r.pick(&[1u16, 1, 2, 3, 10, 60, 99, 100]); let mt = MAXT / sp as i32;
    let pk = c::PoolKey { token_x: "tokena".into(), token_y: "tokenb".into(), fee_tier: c::FeeTier { fee: CP::new(1), tick_spacing: sp } };
    let mut st = crate::world::Mem::default(); let mut tm = s::Tickmap::default();
    let c0 = match r.below(4) { 0 => mt - r.below(600) as i32, 1 => -mt + r.below(600) as i32, _ => r.range(-(mt as i64), mt as i64) as i32 };
    let mut v = vec![];
    for _ in 0..r.below(8) {
        let i = (c0 + match r.below(4) { 0 => r.range(-4, 4), 1 => *r.pick(&[255, 256, 257, -255, -256, -257, 64, -64, 63, -63]), _ => r.range(-400, 400) } as i32).max(-mt).min(mt) * sp as i32;
        if v.contains(&i) { continue; }
        v.push(i); c::state::flip_bitmap(&mut st, true, i, sp, &pk).unwrap(); tm.flip(true, i, sp);
    }
    if r.b() { v.push(c0.max(-mt).min(mt) * sp as i32); v.dedup(); v.sort(); v.dedup(); for i in &v { if !c::state::get_bitmap(&st, *i, sp, &pk) { c::state::flip_bitmap(&mut st, true, *i, sp, &pk).unwrap(); tm.flip(true, *i, sp); } } }
    (st, tm, v, sp, pk)
}
fn probe(r: &mut Rng, v: &[i32], sp: u16) -> i32 { let mt = MAXT / sp as i32; let base = if v.is_empty() { r.range(-(mt as i64), mt as i64) as i32 } else { r.pick(v) / sp as i32 }; (base + match r.below(4) { 0 => 0, 1 => r.range(-3, 3), 2 => *r.pick(&[255, 256, 257, -255, -256, -257, 1, -1]), _ => r.range(-300, 300) } as i32).max(-mt).min(mt) * sp as i32 }
fn tickmap(r: &mut Rng) -> R {
    let (st, tm, v, sp, pk) = bitmap(r);
    for _ in 0..6 {
        let t = probe(r, &v, sp); let xy = r.b(); let lim = if r.b() { if xy { MINP } else { MAXP } } else { let x = gen_price(r); near_price(r, x) };
        bothv!(format!("next_initialized {t} {sp} {v:?}"), c::state::next_initialized(&st, t, sp, &pk), tm.next_initialized(t, sp));
        bothv!(format!("prev_initialized {t} {sp} {v:?}"), c::state::prev_initialized(&st, t, sp, &pk), tm.prev_initialized(t, sp));
        both!(format!("get_closer_limit {t} {sp} {v:?} {xy} {lim}"), c::state::get_closer_limit(&st, CS::new(lim), xy, t, sp, &pk).map(|x| (x.0.get(), x.1)), tm.get_closer_limit(SS::new(lim), xy, t, sp).map(|x| (x.0.get(), x.1)));
        bothv!("get_search_limit", (c::get_search_limit(t, sp, xy), c::tick_to_position(t, sp)), (s::get_search_limit(t, sp, xy), s::tick_to_position(t, sp)));
        ck!(tm.get(t, sp) == c::state::get_bitmap(&st, t, sp, &pk), "bit of {t}");
        let (ch, b2) = s::tick_to_position(t, sp);
        ck!(s::position_to_tick(ch, b2, sp) == t, "position_to_tick({ch},{b2},{sp}) = {} instead of {t}", s::position_to_tick(ch, b2, sp));
    }
    Ok(())
}
pub fn a10(r: &mut Rng) -> R {
    let (mut st, _, mut v, sp, pk) = bitmap(r);
    v.sort();
    let mt = MAXT / sp as i32; let s1 = sp as i32;
    for _ in 0..10 {
        let t = probe(r, &v, sp);
        let up = if t / s1 + 256 > mt { mt } else { t / s1 + 256 } * s1; let dn = if t / s1 - 256 < -mt { -mt } else { t / s1 - 256 } * s1;
        let n = v.iter().cloned().find(|x| *x > t && *x <= up); let p = v.iter().cloned().rev().find(|x| *x <= t && *x >= dn);
        let (rn, rp) = (guard(|| c::state::next_initialized(&st, t, sp, &pk)), guard(|| c::state::prev_initialized(&st, t, sp, &pk)));
        ck!(rn == Some(n), "next_initialized({t}, spacing {sp}) = {rn:?} instead of {n:?}; initialized {v:?}");
        ck!(rp == Some(p), "prev_initialized({t}, spacing {sp}) = {rp:?} instead of {p:?}; initialized {v:?}");
        let b2 = guard(|| c::state::get_bitmap(&st, t, sp, &pk));
        ck!(b2 == Some(v.contains(&t)), "get_bitmap({t}, spacing {sp}) = {b2:?}; initialized {v:?}");
        if r.chance(30) {
            let on = !v.contains(&t);
            if r.chance(20) { let mut s2 = st.clone(); let e = guard(|| c::state::flip_bitmap(&mut s2, !on, t, sp, &pk).is_ok()); ck!(e != Some(true), "flip_bitmap({t}, {}) accepted though the tick already has that state", !on); continue; }
            let ok = guard(|| c::state::flip_bitmap(&mut st, on, t, sp, &pk).is_ok());
            ck!(ok == Some(true), "flip_bitmap({t}, {on}) refused");
            if on { v.push(t); v.sort(); } else { v.retain(|x| *x != t); }
            let mut other = pk.clone(); other.fee_tier.fee = CP::new(2);
            ck!(!c::state::get_bitmap(&st, t, sp, &other), "flip_bitmap({t}) marks another pool");
            let bits: u32 = c::state::BITMAP.range_raw(&st, None, None, cosmwasm_std::Order::Ascending).map(|x| x.unwrap().1.count_ones()).sum();
            ck!(bits as usize == v.len() && v.iter().all(|x| c::state::get_bitmap(&st, *x, sp, &pk)), "flip_bitmap({t}, {on}) changed other marks");
        }
    }
    Ok(())
}
#[cfg(feature = "simswap")]
#[allow(unused_imports)]
mod sim { extern crate alloc; include!(env!("SIM_SWAP_RS")); }
#[cfg(feature = "simswap")]
pub fn swap(r: &mut Rng) -> R {
    use crate::world::*;
    let mut err = Ok(());
    let w = match history("A17", r) { Some(w) => w, None => return Ok(()) };
    for _ in 0..12 {
        let k = match w.m.pools.keys().nth(r.below(w.m.pools.len().max(1) as u64) as usize) { Some(k) => k.clone(), None => return Ok(()) };
        let (xy, amount, by_in, limit) = w.swap_args(r, &k);
        if w.m.calc_swap(&k, xy, amount, by_in, limit).is_err() { continue; }
        let pk = pkey(&k);
        let p = c::state::get_pool(&w.st, &pk).unwrap();
        let cr = guard(|| c::entrypoints::calculate_swap(&w.st, w.now / 1_000_000, &pk, xy, CT::new(amount), by_in, CS::new(limit)).map_err(|_| ()));
        let sp = s::Pool { liquidity: SL::new(p.liquidity.get()), sqrt_price: SS::new(p.sqrt_price.get()), current_tick_index: p.current_tick_index, fee_growth_global_x: SG::new(p.fee_growth_global_x.get()), fee_growth_global_y: SG::new(p.fee_growth_global_y.get()), start_timestamp: p.start_timestamp, last_timestamp: p.last_timestamp, ..Default::default() };
        let mut tm = s::Tickmap::default();
        let mut ticks = vec![];
        for (t, x) in &w.m.pools[&k].ticks { tm.flip(true, *t, k.3); let rt = c::state::get_tick(&w.st, &pk, *t).unwrap(); let _ = x; ticks.push(s::LiquidityTick { index: *t, liquidity_change: SL::new(rt.liquidity_change.get()), sign: rt.sign }); }
        let sr = guard(|| sim::simulate_swap(tm, s::FeeTier { fee: SP::new(k.2), tick_spacing: k.3 }, sp, ticks, xy, ST::new(amount), by_in, SS::new(limit)).map_err(|_| ()));
        if let (Some(Ok(x)), Some(Ok(y))) = (cr, sr) {
            if y.global_insufficient_liquidity || y.state_outdated || y.max_ticks_crossed { continue; }
            let a = (x.amount_in.get(), x.amount_out.get(), x.fee.get(), x.start_sqrt_price.get(), x.target_sqrt_price.get(), x.ticks.iter().map(|t| (t.index, t.liquidity_change.get(), t.sign)).collect::<Vec<_>>());
            let b2 = (y.amount_in.get(), y.amount_out.get(), y.fee.get(), y.start_sqrt_price.get(), y.target_sqrt_price.get(), y.crossed_ticks.iter().map(|t| (t.index, t.liquidity_change.get(), t.sign)).collect::<Vec<_>>());
            if a != b2 { err = Err(format!("swap xy={xy} amount={amount} by_in={by_in} limit={limit} on {p:?}: contract {a:?}, SDK {b2:?}")); break; }
        }
    }
    err
}
