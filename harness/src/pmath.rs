//! A01-A04, A13 (rounding), A16, A18 on the compiled functions.
use crate::refmath::*;
use crate::util::*;
use cosmwasm_std::Addr;
use decimal::*;
use oraiswap_v3 as dex;
use dex::{fee_growth::FeeGrowth, fixed_point::FixedPoint, liquidity::Liquidity, percentage::Percentage, seconds_per_liquidity::SecondsPerLiquidity, sqrt_price::SqrtPrice, token_amount::TokenAmount};

pub type R = Result<(), String>;
fn ub(v: U256) -> B { let mut o = B::zero(); for i in 0..4 { o.0[i] = v.0[i]; } o }
fn bu(v: B) -> U256 { let mut o = U256::zero(); for i in 0..4 { o.0[i] = v.0[i]; } o }

/// got: None = failed.  must: the value if it fits; fit: largest allowed value; strict: failing is only allowed when it does not fit
fn cmp(name: &str, args: &[u128], got: Option<B>, want: Option<B>, fit: B, strict: bool) -> R {
    let want = want.filter(|w| *w <= fit);
    match (got, want) {
        (Some(g), Some(w)) => { ck!(g == w, "{}{:?} = {} but the exact result is {}", name, args, g, w); Ok(()) }
        (Some(g), None) => Err(format!("{}{:?} = {} but the result does not fit / is undefined", name, args, g)),
        (None, Some(w)) if strict => Err(format!("{}{:?} fails but the result {} fits", name, args, w)),
        _ => Ok(()),
    }
}
macro_rules! g1 { ($x:expr) => { guard(|| $x).map(|v| b(v.get() as u128)) } }
macro_rules! gr { ($x:expr) => { guard(|| $x).and_then(|v| v.ok()).map(|v| b(v.get() as u128)) } }
fn nz(d: B, f: impl FnOnce() -> B) -> Option<B> { if d.is_zero() { None } else { Some(f()) } }

macro_rules! pair { ($r:expr, $A:ident, $ab:expr, $au:ty, $as_:expr, $T:ident, $tb:expr, $tu:ty, $ts:expr) => {{
    let (x, y) = ($r.amt($ab), $r.amt($tb));
    // sometimes make the quotient / product interesting
    let (x, y) = match $r.below(6) { 0 => (x, if $tb == 128 || x >> 64 == 0 { x.max(1) } else { y }), _ => (x, y) };
    let mk = || ($A::new(x as $au), $T::new(y as $tu));
    let m = mx($ab); let w = mx(256);
    let (bx, by, t1) = (b(x), b(y), e($ts));
    let n = |s: &str| format!("{}::{}::<{}>", stringify!($A), s, stringify!($T));
    let ar = [x, y];
    let p = bx * by;
    cmp(&n("big_mul"), &ar, g1!({ let (a, c) = mk(); a.big_mul(c) }), Some(fl(p, t1)), m, true)?;
    cmp(&n("big_mul_up"), &ar, g1!({ let (a, c) = mk(); a.big_mul_up(c) }), Some(cl(p, t1)), m, p + t1 <= w)?;
    let q = bx * t1;
    cmp(&n("big_div"), &ar, g1!({ let (a, c) = mk(); a.big_div(c) }), nz(by, || fl(q, by)), m, true)?;
    cmp(&n("big_div_up"), &ar, g1!({ let (a, c) = mk(); a.big_div_up(c) }), nz(by, || cl(q, by)), m, true)?;
    cmp(&n("checked_big_div"), &ar, gr!({ let (a, c) = mk(); a.checked_big_div(c) }), nz(by, || fl(q, by)), m, true)?;
    cmp(&n("mul_up"), &ar, g1!({ let (a, c) = mk(); a.mul_up(c) }), Some(cl(p, t1)), m, p + t1 <= m && by <= m && t1 <= m)?;
    cmp(&n("div_up"), &ar, g1!({ let (a, c) = mk(); a.div_up(c) }), nz(by, || cl(q, by)), m, q + by <= m && t1 <= m)?;
    cmp(&n("mul"), &ar, g1!({ let (a, c) = mk(); a * c }), Some(fl(p, t1)), m, p <= m && by <= m && t1 <= m)?;
    cmp(&n("div"), &ar, g1!({ let (a, c) = mk(); a / c }), nz(by, || fl(q, by)), m, q <= m && by <= m && t1 <= m)?;
    cmp(&n("big_mul_to_value"), &ar, guard(|| { let (a, c) = mk(); ub(a.big_mul_to_value(c)) }), Some(fl(p, t1)), w, true)?;
    cmp(&n("big_mul_to_value_up"), &ar, guard(|| { let (a, c) = mk(); ub(a.big_mul_to_value_up(c)) }), Some(cl(p, t1)), w, p + t1 <= w)?;
    // scale conversions T -> A
    let (lo, up) = if $as_ > $ts { let k = e($as_ - $ts); (by * k, by * k) } else { let k = e($ts - $as_); (fl(by, k), cl(by, k)) };
    cmp(&n("from_decimal"), &ar, g1!({ let (_, c) = mk(); $A::from_decimal(c) }), Some(lo), m, false)?;
    cmp(&n("from_decimal_up"), &ar, g1!({ let (_, c) = mk(); $A::from_decimal_up(c) }), Some(up), m, false)?;
    cmp(&n("checked_from_decimal"), &ar, gr!({ let (_, c) = mk(); $A::checked_from_decimal(c) }), Some(lo), m, false)?;
    cmp(&n("checked_from_decimal_to_value"), &ar, guard(|| { let (_, c) = mk(); let v: Result<U256, String> = $A::checked_from_decimal_to_value(c); v }).and_then(|v| v.ok()).map(ub), Some(lo), w, false)?;
}} }
macro_rules! solo { ($r:expr, $A:ident, $ab:expr, $au:ty, $as_:expr) => {{
    let (x, y) = ($r.amt($ab), $r.amt($ab));
    let y = match $r.below(5) { 0 => x, 1 => x.saturating_add(1) & (if $ab == 128 { u128::MAX } else { (1u128 << $ab) - 1 }), 2 => x.saturating_sub(1), 3 => (if $ab == 128 { u128::MAX } else { (1u128 << $ab) - 1 }) - x, _ => y };
    let m = mx($ab); let w = mx(256); let (bx, by, one) = (b(x), b(y), e($as_)); let ar = [x, y];
    let n = |s: &str| format!("{}::{}", stringify!($A), s);
    let a = || $A::new(x as $au); let c = || $A::new(y as $au);
    cmp(&n("add"), &ar, g1!(a() + c()), Some(bx + by), m, true)?;
    cmp(&n("sub"), &ar, g1!(a() - c()), bx.checked_sub(by), m, true)?;
    cmp(&n("checked_add"), &ar, gr!(a().checked_add(c())), Some(bx + by), m, true)?;
    cmp(&n("checked_sub"), &ar, gr!(a().checked_sub(c())), bx.checked_sub(by), m, true)?;
    cmp(&n("checked_div"), &ar, gr!(a().checked_div(c())), nz(by, || fl(bx * one, by)), m, bx * one <= m)?;
    cmp(&n("sub_abs"), &ar, g1!(a().sub_abs(c())), Some(b(absd(x, y))), m, true)?;
    cmp(&n("add_assign"), &ar, g1!({ let mut t = a(); t += c(); t }), Some(bx + by), m, true)?;
    cmp(&n("sub_assign"), &ar, g1!({ let mut t = a(); t -= c(); t }), bx.checked_sub(by), m, true)?;
    cmp(&n("mul_assign"), &ar, g1!({ let mut t = a(); t *= c(); t }), Some(fl(bx * by, one)), m, bx * by <= m)?;
    cmp(&n("div_assign"), &ar, g1!({ let mut t = a(); t /= c(); t }), nz(by, || fl(bx * one, by)), m, bx * one <= m)?;
    let big = if $r.b() { b($r.amt(128)) } else { (b($r.u128()) << 128u32) + b($r.u128()) };
    let bb = bu(big);
    cmp(&n("big_div_by_number"), &[x, big.low_u128()], g1!(a().big_div_by_number(bb)), nz(big, || fl(bx * one, big)), m, true)?;
    cmp(&n("checked_big_div_by_number"), &[x, big.low_u128()], gr!(a().checked_big_div_by_number(bb)), nz(big, || fl(bx * one, big)), m, true)?;
    cmp(&n("big_div_by_number_up"), &[x, big.low_u128()], g1!(a().big_div_by_number_up(bb)), nz(big, || cl(bx * one, big)), m, bx * one + big <= w)?;
    cmp(&n("checked_big_div_by_number_up"), &[x, big.low_u128()], gr!(a().checked_big_div_by_number_up(bb)), nz(big, || cl(bx * one, big)), m, bx * one + big <= w)?;
    let v = $r.amt(64) as u64; let s = $r.below(39) as u8; let ss = s as u32;
    let (lo, up) = if $as_ > ss { let k = e($as_ - ss); (b(v as u128) * k, b(v as u128) * k) } else { let k = e(ss - $as_); (fl(b(v as u128), k), cl(b(v as u128), k)) };
    let ar = [v as u128, s as u128];
    cmp(&n("from_integer"), &ar, g1!($A::from_integer(v)), Some(b(v as u128) * one), m, false)?;
    cmp(&n("from_scale"), &ar, g1!($A::from_scale(v, s)), Some(lo), m, false)?;
    cmp(&n("from_scale_up"), &ar, g1!($A::from_scale_up(v, s)), Some(up), m, false)?;
    cmp(&n("checked_from_scale"), &ar, gr!($A::checked_from_scale(v, s)), Some(lo), m, false)?;
    // ordering and zero test
    ck!((a() == c()) == (x == y), "{} comparison of {} and {}", stringify!($A), x, y);
    ck!(a().is_zero() == (x == 0), "{}({}).is_zero()", stringify!($A), x);
    ck!($A::scale() as u32 == $as_ && b($A::one::<u128>()) == one && b($A::almost_one::<u128>()) + b(1) == one, "{} scale", stringify!($A));
    ck!(b($A::max_instance().get() as u128) == m, "{} max", stringify!($A));
}} }
macro_rules! allpairs { ($r:expr, $A:ident, $ab:expr, $au:ty, $as_:expr) => {{
    solo!($r, $A, $ab, $au, $as_);
    pair!($r, $A, $ab, $au, $as_, TokenAmount, 128, u128, 0); pair!($r, $A, $ab, $au, $as_, Liquidity, 128, u128, 6);
    pair!($r, $A, $ab, $au, $as_, Percentage, 64, u64, 12); pair!($r, $A, $ab, $au, $as_, FixedPoint, 128, u128, 12);
    pair!($r, $A, $ab, $au, $as_, SqrtPrice, 128, u128, 24); pair!($r, $A, $ab, $au, $as_, FeeGrowth, 128, u128, 28);
    pair!($r, $A, $ab, $au, $as_, SecondsPerLiquidity, 128, u128, 24);
}} }
pub fn a01(r: &mut Rng) -> R {
    match r.below(7) {
        0 => allpairs!(r, TokenAmount, 128, u128, 0), 1 => allpairs!(r, Liquidity, 128, u128, 6), 2 => allpairs!(r, Percentage, 64, u64, 12),
        3 => allpairs!(r, FixedPoint, 128, u128, 12), 4 => allpairs!(r, SqrtPrice, 128, u128, 24), 5 => allpairs!(r, FeeGrowth, 128, u128, 28),
        _ => allpairs!(r, SecondsPerLiquidity, 128, u128, 24),
    }
    // wide helpers on prices and token amounts
    let wide = |r: &mut Rng| { let v = (b(r.amt(128)) << 128u32) + b(r.u128()); let k = r.below(257) as u32; v >> k };
    let (n, d) = (wide(r), wide(r));
    let (un, ud) = (bu(n), bu(d)); let m = mx(128); let ar = [n.low_u128(), d.low_u128()];
    let bigok = n * e(24) + d <= mx(320);
    let q = n * e(24);
    let okk = |x: Option<B>| x.filter(|v| *v <= mx(256));
    cmp("big_div_values_to_token", &ar, guard(|| SqrtPrice::big_div_values_to_token(un, ud)).and_then(|v| v.ok()).map(|v| b(v.0)), okk(nz(d, || fl(q, d))).map(|v| fl(v, e(24))), m, bigok)?;
    cmp("big_div_values_to_token_up", &ar, guard(|| SqrtPrice::big_div_values_to_token_up(un, ud)).and_then(|v| v.ok()).map(|v| b(v.0)), okk(nz(d, || cl(q, d))).filter(|v| *v + e(24) <= mx(256)).map(|v| cl(v, e(24))), m, bigok)?;
    cmp("big_div_values_up", &ar, g1!(SqrtPrice::big_div_values_up(un, ud)), nz(d, || cl(q, d)), m, false)?;
    cmp("checked_big_div_values", &ar, gr!(SqrtPrice::checked_big_div_values(un, ud)), nz(d, || fl(q, d)), m, false)?;
    cmp("checked_big_div_values_up", &ar, gr!(SqrtPrice::checked_big_div_values_up(un, ud)), nz(d, || cl(q, d)), m, false)?;
    cmp("from_big_sqrt_price", &ar, gr!(TokenAmount::from_big_sqrt_price(un)), Some(fl(n, e(24))), m, true)?;
    cmp("from_big_sqrt_price_up", &ar, gr!(TokenAmount::from_big_sqrt_price_up(un)), Some(cl(n, e(24))), m, n + e(24) <= mx(256))?;
    // wide-integer conversions
    let w320 = wide(r) << r.below(65) as u32;
    let mut u = U320::zero(); for i in 0..5 { u.0[i] = w320.0[i]; }
    cmp("checked_u320_to_u256", &[w320.low_u128()], checked_u320_to_u256(u).map(ub), Some(w320), mx(256), true)?;
    let back = u256_to_u320(un); let mut o = B::zero(); for i in 0..5 { o.0[i] = back.0[i]; }
    ck!(o == n, "u256_to_u320({}) = {}", n, o);
    let x = r.u128(); ck!(ub(to_u256(x)) == b(x), "to_u256({})", x);
    Ok(())
}

/// full sweep part i of n, then random prices
pub fn a02_sweep(part: i32, parts: i32) -> R {
    let lo = -MAXT + (2 * MAXT + 1) * part / parts;
    let hi = -MAXT + (2 * MAXT + 1) * (part + 1) / parts; // exclusive
    let gp = |t: i32| guard(|| dex::sqrt_price::calculate_sqrt_price(t)).and_then(|v| v.ok()).map(|v| v.get()).ok_or(format!("price of tick {} fails", t));
    let gt = |p: u128, s: u16| guard(|| dex::log::get_tick_at_sqrt_price(SqrtPrice::new(p), s)).and_then(|v| v.ok()).ok_or(format!("tick at price {} (spacing {}) fails", p, s));
    let mut prev = if lo > -MAXT { gp(lo - 1)? } else { ck!(gp(lo)? == MINP, "price of the lowest tick is not the published minimum"); 0 };
    if hi == MAXT + 1 { ck!(gp(MAXT)? == MAXP, "price of the highest tick is not the published maximum"); }
    for t in lo..hi {
        let p = gp(t)?;
        ck!(p > prev, "price of tick {} is {} which is not above {}", t, p, prev);
        let s = 1 + (t.rem_euclid(100)) as u16;
        for (q, s2, want) in [(p, 1u16, t), (p, s, t.div_euclid(s as i32) * s as i32), (p - 1, 1, t - 1), (p - 1, s, (t - 1).div_euclid(s as i32) * s as i32)] {
            if q < MINP || want < -MAXT || q > MAXP { continue; }
            if q == MAXP && s2 == 1 && want == MAXT { /* the top price itself */ }
            let g = gt(q, s2)?;
            ck!(g == want, "tick at price {} with spacing {} is {} but {} is the greatest multiple not above it", q, s2, g, want);
        }
        prev = p;
    }
    Ok(())
}
pub fn a02(r: &mut Rng) -> R {
    let p = gen_price(r); let s = if r.b() { r.range(1, 100) as u16 } else { *r.pick(&[1u16, 2, 3, 5, 10, 60, 64, 99, 100]) };
    let p = if r.chance(30) { let k = r.range(-(MAXT as i64 / s as i64), MAXT as i64 / s as i64) as i32 * s as i32; (tp(k) as i128 + r.range(-2, 2) as i128).clamp(MINP as i128, MAXP as i128) as u128 } else { p };
    let want = tick_of(p, s as i32);
    if want < -MAXT { return Ok(()); }
    let g = guard(|| dex::log::get_tick_at_sqrt_price(SqrtPrice::new(p), s)).and_then(|v| v.ok());
    ck!(g == Some(want), "tick at price {} with spacing {} is {:?}, expected {}", p, s, g, want);
    for (q, ok) in [(MAXP + 1 + r.amt(90), false), (MINP - 1 - r.below128(MINP), false)] {
        let g = guard(|| dex::log::get_tick_at_sqrt_price(SqrtPrice::new(q), s)).and_then(|v| v.ok());
        ck!(g.is_none() || ok, "tick at out-of-range price {} is {:?}", q, g);
    }
    let t = MAXT + 1 + r.below(1 << 20) as i32; let t = if r.b() { t } else { -t };
    ck!(guard(|| dex::sqrt_price::calculate_sqrt_price(t)).and_then(|v| v.ok()).is_none(), "price of out-of-range tick {}", t);
    ck!(dex::sqrt_price::get_max_tick(s) == max_tick(s as i32) && dex::sqrt_price::get_min_tick(s) == -max_tick(s as i32), "extreme ticks for spacing {}", s);
    Ok(())
}

pub fn a03(r: &mut Rng) -> R {
    let l = r.amt(128); let p = gen_price(r); let q = near_price(r, p);
    let (lp, up) = (p.min(q), p.max(q));
    let sp = |x| SqrtPrice::new(x);
    for rup in [true, false] {
        let gx = guard(|| dex::clamm::get_delta_x(sp(p), sp(q), Liquidity::new(l), rup)).and_then(|v| v.ok()).map(|v| v.0);
        let gy = guard(|| dex::clamm::get_delta_y(sp(p), sp(q), Liquidity::new(l), rup)).and_then(|v| v.ok()).map(|v| v.0);
        // exact: x = l*(up-lp)*1e18/(lp*up), y = l*(up-lp)/1e30
        let d = b(up - lp) * b(l);
        if let Some(x) = gx {
            if rup { ck!(b(x) * b(lp) * b(up) + e(24) >= d * e(18), "get_delta_x up({}, {}, {}) = {} is below the exact amount", p, q, l, x); }
            else { ck!(b(x) * b(lp) * b(up) <= d * e(18), "get_delta_x down({}, {}, {}) = {} is above the exact amount", p, q, l, x); }
            ck!(b(x) == dx(p, q, l, rup), "get_delta_x({}, {}, {}, {}) = {} but should be {}", p, q, l, rup, x, dx(p, q, l, rup));
        }
        if let Some(y) = gy {
            if rup { ck!(b(y) * e(30) >= d, "get_delta_y up({}, {}, {}) = {} is below the exact amount", p, q, l, y); }
            else { ck!(b(y) * e(30) <= d, "get_delta_y down({}, {}, {}) = {} is above the exact amount", p, q, l, y); }
            ck!(b(y) == dy(p, q, l, rup), "get_delta_y({}, {}, {}, {}) = {} but should be {}", p, q, l, rup, y, dy(p, q, l, rup));
        }
        if l < 1 << 90 { ck!(gy.is_some() && gx.is_some() || small(dy(p, q, l, rup)).is_none() || small(dx(p, q, l, rup)).is_none(), "delta fails for {} {} {}", p, q, l); }
    }
    // add then remove at one price
    let s = r.range(1, 100) as i32;
    let cur = tick_of(p, s); if cur < -max_tick(s) { return Ok(()); }
    let al = |t: i32| (t.div_euclid(s) * s).clamp(-max_tick(s), max_tick(s));
    let (t1, t2) = if r.chance(60) { (al(cur + r.range(-400, 400) as i32), al(cur + r.range(-400, 400) as i32)) } else { (al(gen_tick(r)), al(gen_tick(r))) };
    let (lo, hi) = (t1.min(t2), t1.max(t2));
    if lo == hi { return Ok(()); }
    let mut pool = dex::Pool { sqrt_price: sp(p), current_tick_index: cur, liquidity: Liquidity::new(r.amt(100)), ..Default::default() };
    let l = { let k = if r.b() { 127 } else { 80 }; r.amt(k) };
    let start = pool.clone();
    let add = guard(|| { let mut q = pool.clone(); let v = q.update_liquidity(Liquidity::new(l), true, hi, lo); (v, q) });
    let Some((Ok((x, y)), q)) = add else { return Ok(()); };
    pool = q;
    let inside = lo <= cur && cur < hi;
    if cur < lo { ck!(y.0 == 0, "token y charged below the range"); }
    if cur >= hi { ck!(x.0 == 0, "token x charged above the range"); }
    ck!(amounts(cur, p, l, true, lo, hi) == Some((x.0, y.0)), "amounts charged for l={} [{},{}] at tick {} price {}: {:?} expected {:?}", l, lo, hi, cur, p, (x.0, y.0), amounts(cur, p, l, true, lo, hi));
    ck!(pool.liquidity.0 == start.liquidity.0 + if inside { l } else { 0 }, "pool liquidity after adding {} (inside {})", l, inside);
    let rem = guard(|| { let mut q = pool.clone(); let v = q.update_liquidity(Liquidity::new(l), false, hi, lo); (v, q) });
    let Some((Ok((x2, y2)), q)) = rem else { return Err(format!("removing the liquidity just added fails: l={} [{},{}] tick {} price {}", l, lo, hi, cur, p)); };
    ck!(x2.0 <= x.0 && y2.0 <= y.0, "removing returns more than charged: {:?} > {:?} for l={} [{},{}] tick {} price {}", (x2.0, y2.0), (x.0, y.0), l, lo, hi, cur, p);
    ck!(amounts(cur, p, l, false, lo, hi) == Some((x2.0, y2.0)), "amounts paid for l={} [{},{}] at tick {} price {}: {:?} expected {:?}", l, lo, hi, cur, p, (x2.0, y2.0), amounts(cur, p, l, false, lo, hi));
    ck!(q.liquidity == start.liquidity && q.sqrt_price == start.sqrt_price && q.current_tick_index == start.current_tick_index, "pool changed by add+remove");
    Ok(())
}

pub fn gen_step(r: &mut Rng) -> (u128, u128, u128, u128, bool, u64) {
    let cur = gen_price(r); let tgt = near_price(r, cur); let l = if r.chance(70) { r.amt(110) } else { r.amt(128) };
    let by_in = r.b();
    let fee = match r.below(5) { 0 => 0, 1 => *r.pick(&[100000000u64, 600000000, 3000000000, 10000000000]), 2 => 1_000_000_000_000 - r.amt(20) as u64, 3 => r.amt(40) as u64 % 1_000_000_000_000, _ => r.below(1_000_000_000_000) };
    let mut amt = { let k = if r.b() { 128 } else { 80 }; r.amt(k) };
    if r.chance(60) {
        // around the amount needed to reach the target
        let xy = cur >= tgt;
        let need = if by_in { if xy { dx(tgt, cur, l, true) } else { dy(cur, tgt, l, true) } } else if xy { dy(tgt, cur, l, false) } else { dx(cur, tgt, l, false) };
        if let Some(n) = small(need) {
            let n2 = if by_in && fee < 1_000_000_000_000 { small(cl(b(n) * e(12), b(1_000_000_000_000 - fee as u128))).unwrap_or(n) } else { n };
            amt = match r.below(4) { 0 => n2.saturating_add(r.below(4) as u128), 1 => n2.saturating_sub(r.below(4) as u128), 2 => n2.saturating_sub(1), _ => r.below128(n2.max(1)) };
        }
    }
    (cur, tgt, l, amt, by_in, fee)
}
pub fn a04(r: &mut Rng) -> R {
    let (cur, tgt, l, amt, by_in, fee) = gen_step(r);
    let g = guard(|| dex::clamm::compute_swap_step(SqrtPrice::new(cur), SqrtPrice::new(tgt), Liquidity::new(l), TokenAmount::new(amt), by_in, Percentage::new(fee))).and_then(|v| v.ok());
    let desc = format!("compute_swap_step(cur={}, target={}, liquidity={}, amount={}, by_amount_in={}, fee={})", cur, tgt, l, amt, by_in, fee);
    let want = step(cur, tgt, l, amt, by_in, fee);
    if let Some(s) = g {
        let s = Step { next: s.next_sqrt_price.get(), ain: s.amount_in.0, aout: s.amount_out.0, fee: s.fee_amount.0 };
        step_ok(cur, tgt, l, amt, by_in, fee, &s).map_err(|m| format!("{}: {}", desc, m))?;
        ck!(Some(&s) == want.as_ref(), "{} = {:?} but expected {:?}", desc, s, want);
    } else if l < 1 << 100 && amt < 1 << 100 && want.is_some() { return Err(format!("{} fails, expected {:?}", desc, want)); }
    // would the remaining amount move the price at all?
    let en = guard(|| dex::clamm::is_enough_amount_to_change_price(TokenAmount::new(amt), SqrtPrice::new(cur), Liquidity::new(l), Percentage::new(fee), by_in, r.0 & 2 == 0)).and_then(|v| v.ok());
    if let Some(g) = en { ck!(Some(g) == enough(amt, cur, l, fee, by_in, r.0 & 2 == 0), "is_enough_amount_to_change_price(amount={}, price={}, l={}, fee={}, in={}, xy={}) = {}", amt, cur, l, fee, by_in, r.0 & 2 == 0, g); }
    // next-price helpers
    let add = r.b();
    if let Some(g) = guard(|| dex::clamm::get_next_sqrt_price_x_up(SqrtPrice::new(cur), Liquidity::new(l), TokenAmount::new(amt), add)).and_then(|v| v.ok()) {
        ck!(Some(b(g.get())) == nx(cur, l, amt, add), "get_next_sqrt_price_x_up({}, {}, {}, {}) = {}", cur, l, amt, add, g.get()); }


    Ok(())
}
pub fn a13_unit(r: &mut Rng) -> R {
    let a = r.amt(128); let s = match r.below(4) { 0 => 0, 1 => 1_000_000_000_000, 2 => r.amt(41) as u64, _ => r.below(1_000_000_000_001) };
    let g = guard(|| dex::clamm::calculate_min_amount_out(TokenAmount::new(a), Percentage::new(s))).map(|v| b(v.0));
    let want = if s > 1_000_000_000_000 { None } else { Some(cl(b(a) * b(1_000_000_000_000 - s as u128), e(12))) };
    ck!(g == want, "calculate_min_amount_out({}, {}) = {:?}, expected {:?}", a, s, g, want);
    Ok(())
}
pub fn gen_token(r: &mut Rng) -> String {
    let n = match r.below(6) { 0 => 3, 1 => 1, 2 => 10, 3 => 12, 4 if r.chance(20) => 250 + r.below(500), _ => 1 + r.below(20) } as usize;
    (0..n).map(|_| match r.below(6) { 0 => '\0', 1 => '\u{1}', 2 => char::from(r.below(127) as u8), 3 => '\n', _ => char::from(b'a' + r.below(3) as u8) }).collect()
}
pub fn a16(r: &mut Rng) -> R {
    let ft = |r: &mut Rng| dex::FeeTier { fee: Percentage::new(match r.below(3) { 0 => r.amt(64) as u64, 1 => r.below(300), _ => 1u64 << r.below(64) }), tick_spacing: match r.below(3) { 0 => r.next() as u16, 1 => r.below(4) as u16, _ => 1u16 << r.below(16) } };
    let mk = |r: &mut Rng| -> dex::PoolKey { let f = ft(r); dex::PoolKey { token_x: gen_token(r), token_y: gen_token(r), fee_tier: f } };
    let a = mk(r);
    // a neighbour of a: tiny edits, including moving bytes across the field boundary
    let mut c = if r.chance(15) { mk(r) } else { a.clone() };
    match r.below(8) {
        0 => { if let Some(ch) = c.token_x.pop() { c.token_y.insert(0, ch); } }
        1 => { if !c.token_y.is_empty() { let ch = c.token_y.remove(0); c.token_x.push(ch); } }
        2 => std::mem::swap(&mut c.token_x, &mut c.token_y),
        3 => c.fee_tier.fee = Percentage::new(c.fee_tier.fee.0 ^ (1u64 << r.below(64))),
        4 => c.fee_tier.tick_spacing ^= 1u16 << r.below(16),
        5 => c.fee_tier = ft(r),
        _ => {}
    }
    let key = |k: &dex::PoolKey| guard(|| k.key()).ok_or(format!("key of {:?} fails", k));
    let (ka, kc) = (key(&a)?, key(&c)?);
    ck!((ka == kc) == (a == c), "pool keys of {:?} and {:?}: equal={} ", a, c, ka == kc);
    ck!(guard(|| dex::PoolKey::from_bytes(&ka)).and_then(|v| v.ok()).as_ref() == Some(&a), "decoding the key of {:?} gives {:?}", a, guard(|| dex::PoolKey::from_bytes(&ka).ok()));
    let fk = a.fee_tier.key();
    ck!(guard(|| dex::FeeTier::from_bytes(&fk)).and_then(|v| v.ok()) == Some(a.fee_tier), "decoding the fee tier key of {:?}", a.fee_tier);
    ck!((fk == c.fee_tier.key()) == (a.fee_tier == c.fee_tier), "fee tier keys of {:?} and {:?}", a.fee_tier, c.fee_tier);
    let tk = |r: &mut Rng| match r.below(4) { 0 => gen_tick(r), 1 => r.next() as i32, 2 => r.range(-300, 300) as i32, _ => 1i32 << r.below(31) };
    let t1 = tk(r); let t2 = match r.below(6) { 0 => t1, 1 => t1 ^ (1 << r.below(32)), 2 => t1.wrapping_neg(), 3 => t1.swap_bytes(), _ => tk(r) };
    ck!((dex::state::tick_key(&a, t1) == dex::state::tick_key(&c, t2)) == (a == c && t1 == t2), "tick keys of {:?}/{} and {:?}/{}", a, t1, c, t2);
    let (c1, c2) = (t1 as u16, if r.b() { t2 as u16 } else { (t1 as u16).swap_bytes() });
    ck!((dex::state::bitmap_key(c1, &a) == dex::state::bitmap_key(c2, &c)) == (a == c && c1 == c2), "bitmap keys of {:?}/{} and {:?}/{}", a, c1, c, c2);
    let acc = |r: &mut Rng| Addr::unchecked(gen_token(r));
    let (m1, m2) = (acc(r), acc(r)); let m2 = match r.below(4) { 0 => m1.clone(), 1 => Addr::unchecked(format!("{}{}", m1, gen_token(r))), 2 => Addr::unchecked(format!("{}\0\0\0\u{1}", m1)), _ => m2 };
    let (i1, i2) = (t1 as u32, t2 as u32);
    ck!((dex::state::position_key(&m1, i1) == dex::state::position_key(&m2, i2)) == (m1 == m2 && i1 == i2), "position keys of {:?}/{} and {:?}/{}", m1, i1, m2, i2);
    let pk = dex::state::position_key(&m1, i1);
    ck!(pk.len() == m1.as_bytes().len() + 4 && &pk[..pk.len() - 4] == m1.as_bytes() && pk[pk.len() - 4..] == i1.to_be_bytes(), "position key layout of {:?}/{}", m1, i1);
    Ok(())
}
pub fn a18(r: &mut Rng) -> R {
    let amt = { let k = if r.b() { 128 } else { 70 }; r.amt(k) };
    let p = gen_price(r);
    let cur = tick_of(p, 1); if cur < -MAXT { return Ok(()); }
    let w = |r: &mut Rng| -> i32 { if r.chance(70) { (cur + match r.below(4) { 0 => r.range(-3, 3), 1 => r.range(-50, 50), 2 => r.range(-3000, 3000), _ => r.range(-60000, 60000) } as i32).clamp(-MAXT, MAXT) } else { gen_tick(r).clamp(-MAXT, MAXT) } };
    let (t1, t2) = (w(r), w(r)); let (lo, hi) = (t1.min(t2), t1.max(t2));
    if lo == hi { return Ok(()); }
    let up = r.b();
    let desc = format!("amount={} range=[{},{}] price={} rounding_up={}", amt, lo, hi, p, up);
    let (pl, pu) = (tp(lo), tp(hi));
    for by_x in [true, false] {
        let g = guard(|| if by_x { dex::logic::math::get_liquidity_by_x(TokenAmount::new(amt), lo, hi, SqrtPrice::new(p), up) } else { dex::logic::math::get_liquidity_by_y(TokenAmount::new(amt), lo, hi, SqrtPrice::new(p), up) }).and_then(|v| v.ok());
        let Some(g) = g else { continue };
        // charge for g.l at this pool state: the tick the pool would be at is the one containing the price
        let charge = amounts(cur, p, g.l.0, true, lo, hi);
        if let Some((x, y)) = charge { let c = if by_x { x } else { y }; ck!(c <= amt, "liquidity {} estimated from {} of {} charges {} ({})", g.l.0, amt, if by_x { "x" } else { "y" }, c, desc); }
        // the estimate is the documented floor formula
        let want = if by_x {
            let a = p.max(pl); if a >= pu { None } else { let nom = fl(b(a) * b(pu), e(24)); small(fl(b(amt) * nom * e(6), b(pu - a))) }
        } else { let top = p.min(pu); if top <= pl { None } else { small(fl(b(amt) * e(30), b(top - pl))) } };
        if let Some(wl) = want { ck!(g.l.0 == wl, "estimated liquidity {} but {} expected ({}, by_x={})", g.l.0, wl, desc, by_x); }
    }
    // both tokens offered
    let amt2 = { let k = if r.b() { 128 } else { 70 }; r.amt(k) };
    if let Some(g) = guard(|| dex::logic::math::get_liquidity(TokenAmount::new(amt), TokenAmount::new(amt2), lo, hi, SqrtPrice::new(p), up)).and_then(|v| v.ok()) {
        if let Some((x, y)) = amounts(cur, p, g.l.0, true, lo, hi) {
            ck!(x <= amt && y <= amt2, "liquidity {} estimated from x={} y={} charges {:?} ({})", g.l.0, amt, amt2, (x, y), desc);
        }
    }
    Ok(())
}
