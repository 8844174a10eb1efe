//! Reference mathematics in wide integers, written from the property statements.
use crate::util::*;
use oraiswap_v3::sqrt_price::calculate_sqrt_price;
pub const MAXT: i32 = 221_818;
pub const MAXP: u128 = 65535383934512647000000000000;
pub const MINP: u128 = 15258932000000000000;

pub fn dx(p: u128, q: u128, l: u128, up: bool) -> B {
    let n = fl(b(absd(p, q)) * b(l), e(6)) * e(24);
    if up { cl(cl(n, fl(b(p) * b(q), e(24))), e(24)) } else { fl(fl(n, cl(b(p) * b(q), e(24))), e(24)) }
}
pub fn dy(p: u128, q: u128, l: u128, up: bool) -> B {
    let n = b(absd(p, q)) * b(l);
    if up { cl(cl(n, e(6)), e(24)) } else { fl(fl(n, e(6)), e(24)) }
}
pub fn nx(p: u128, l: u128, x: u128, add: bool) -> Option<B> {
    if x == 0 { return Some(b(p)); }
    let base = b(l) * e(18);
    let d = if add { base + b(p) * b(x) } else { base.checked_sub(b(p) * b(x))? };
    if d.is_zero() { return None; }
    Some(cl(cl(b(p) * b(l), e(6)) * e(24), d))
}
pub fn ny(p: u128, l: u128, y: u128, add: bool) -> Option<B> {
    let d = b(l) * e(18);
    if d.is_zero() { return None; }
    if add { Some(b(p) + fl(b(y) * e(48), d)) } else { b(p).checked_sub(cl(b(y) * e(48), d)) }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Step { pub next: u128, pub ain: u128, pub aout: u128, pub fee: u128 }
pub fn after_fee(amt: u128, fee: u64) -> Option<u128> { if fee as u128 > 1_000_000_000_000 { None } else { small(fl(b(amt) * b(1_000_000_000_000 - fee as u128), e(12))) } }
pub fn step(cur: u128, tgt: u128, l: u128, amt: u128, by_in: bool, fee: u64) -> Option<Step> {
    if l == 0 { return Some(Step { next: tgt, ain: 0, aout: 0, fee: 0 }); }
    let xy = cur >= tgt;
    let aaf = if by_in { after_fee(amt, fee)? } else { amt };
    let next = if by_in {
        let cost = if xy { dx(tgt, cur, l, true) } else { dy(cur, tgt, l, true) };
        if b(aaf) >= cost { tgt } else if xy { small(nx(cur, l, aaf, true)?)?.max(tgt) } else { small(ny(cur, l, aaf, true)?)? }
    } else {
        let out = if xy { dy(tgt, cur, l, false) } else { dx(cur, tgt, l, false) };
        if b(amt) >= out { tgt } else if xy { small(ny(cur, l, amt, false)?)? } else { small(nx(cur, l, amt, false)?)? }
    };
    let mut ain = small(if xy { dx(next, cur, l, true) } else { dy(cur, next, l, true) })?;
    let mut aout = small(if xy { dy(next, cur, l, false) } else { dx(cur, next, l, false) })?;
    if by_in { ain = ain.min(aaf) } else { aout = aout.min(amt) }
    let f = if by_in && next != tgt { amt - ain } else { small(cl(b(ain) * b(fee as u128), e(12)))? };
    Some(Step { next, ain, aout, fee: f })
}
/// what A04 says about any step result, in exact rationals
pub fn step_ok(cur: u128, tgt: u128, l: u128, amt: u128, by_in: bool, fee: u64, s: &Step) -> Result<(), String> {
    let xy = cur >= tgt;
    let (lo, hi) = if xy { (tgt, cur) } else { (cur, tgt) };
    ck!(lo <= s.next && s.next <= hi, "price {} outside [{}, {}]", s.next, lo, hi);
    if by_in { ck!(b(s.ain) + b(s.fee) <= b(amt), "input {} + fee {} exceeds {}", s.ain, s.fee, amt); }
    else { ck!(s.aout <= amt, "output {} exceeds {}", s.aout, amt); }
    let d = b(absd(s.next, cur));
    if l != 0 {
        // exact cost / yield of the move: x = L*d*1e18/(p*q), y = L*d/1e30
        let (n_x, d_x) = (b(l) * d * e(18), b(cur) * b(s.next));
        let (n_y, d_y) = (b(l) * d, e(30));
        let ((ni, di), (no, d_o)) = if xy { ((n_x, d_x), (n_y, d_y)) } else { ((n_y, d_y), (n_x, d_x)) };
        // one unit of slack is not given: the documented rounding of the liquidity product is the only slack (x side, < 1e24 in the numerator)
        let slack = if xy { e(24) } else { B::zero() };
        ck!(b(s.ain) * di + slack >= ni, "input {} is less than the move costs", s.ain);
        ck!(b(s.aout) * d_o <= no, "output {} is more than the move frees", s.aout);
    } else { ck!(s.ain == 0 && s.aout == 0, "amounts without liquidity"); }
    ck!(b(s.fee) * e(12) >= b(s.ain) * b(fee as u128), "fee {} below the rate {} of {}", s.fee, fee, s.ain);
    Ok(())
}
thread_local!(static TP: std::cell::RefCell<Vec<u128>> = std::cell::RefCell::new(vec![0; 2 * MAXT as usize + 1]));
pub fn tp(t: i32) -> u128 {
    if t < -MAXT || t > MAXT { return decimal::Decimal::get(&calculate_sqrt_price(t).unwrap()); }
    let i = (t + MAXT) as usize;
    let c = TP.with(|v| v.borrow()[i]);
    if c != 0 { return c; }
    let p = decimal::Decimal::get(&calculate_sqrt_price(t).unwrap());
    TP.with(|v| v.borrow_mut()[i] = p);
    p
}
/// greatest multiple of s (within the supported range) whose price does not exceed p
pub fn tick_of(p: u128, s: i32) -> i32 {
    let n = MAXT / s;
    let (mut lo, mut hi) = (-n - 1, n);
    while lo < hi { let m = (lo + hi + 1).div_euclid(2); let c = if m < -n { true } else { tp(m * s) <= p }; if c { lo = m } else { hi = m - 1 } }
    lo * s
}
pub fn max_tick(s: i32) -> i32 { MAXT / s * s }
pub fn amounts(cur: i32, price: u128, l: u128, up: bool, lower: i32, upper: i32) -> Option<(u128, u128)> {
    let (x, y) = if cur < lower { (dx(tp(lower), tp(upper), l, up), B::zero()) }
        else if cur < upper { (dx(price, tp(upper), l, up), dy(tp(lower), price, l, up)) }
        else { (B::zero(), dy(tp(lower), tp(upper), l, up)) };
    Some((small(x)?, small(y)?))
}
pub fn enough(amt: u128, p: u128, l: u128, fee: u64, by_in: bool, xy: bool) -> Option<bool> {
    if l == 0 { return Some(true); }
    let a = if by_in { after_fee(amt, fee)? } else { amt };
    let n = if by_in { if xy { nx(p, l, a, true) } else { ny(p, l, a, true) } } else if xy { ny(p, l, a, false) } else { nx(p, l, a, false) };
    Some(small(n?)? != p)
}
pub fn growth(l: u128, fee: u128) -> Option<u128> { if l == 0 { None } else { small(fl(b(fee) * e(34), b(l))) } }
pub fn to_fee(g: u128, l: u128) -> Option<u128> { small(fl(b(g) * b(l), e(34))) }
pub fn max_liq(s: i32) -> u128 { u128::MAX / (443637 / s as u128) }

// ---- generators ----
pub fn gen_tick(r: &mut Rng) -> i32 {
    match r.below(8) { 0 => r.range(-2000, 2000) as i32, 1 => r.range(-3, 3) as i32, 2 => MAXT - r.below(600) as i32, 3 => -MAXT + r.below(600) as i32,
        4 => { let k = r.below(18); let v = 1i32 << k; let v = v + r.range(-1, 1) as i32; if r.b() { v } else { -v } }
        _ => r.range(-MAXT as i64, MAXT as i64) as i32 }
}
pub fn gen_price(r: &mut Rng) -> u128 {
    let t = gen_tick(r);
    let p = tp(t);
    let p2 = if t < MAXT { tp(t + 1) } else { MAXP };
    let v = match r.below(6) { 0 => p, 1 => p + 1, 2 => p.saturating_sub(1), 3 => p + r.amt(40), _ => p + r.below128(p2 - p + 1) };
    v.clamp(MINP, MAXP)
}
/// a second price at a random distance from p
pub fn near_price(r: &mut Rng, p: u128) -> u128 {
    match r.below(5) {
        0 => gen_price(r),
        1 => { let d = r.amt(97); if r.b() { p.saturating_add(d) } else { p.saturating_sub(d) } }
        _ => { let t = tick_of(p, 1) + r.range(-300, 300) as i32; tp(t.clamp(-MAXT, MAXT)) }
    }.clamp(MINP, MAXP)
}
