// Table checker for A02: establishes lemma_table (ends_ok for every tick) by running verified code.
// Assembled as: this header, module vtab (specs/common/04_vtab.head.rs), this body. `check_all` is verified against
// `forall t. ends_ok(t)`, compiled and executed on every check of A02.
pub mod tickcheck {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use crate::vtab::*;
verus! {
pub const LIM: u128 = 79228162514264337593543950336u128; // 2^96
fn facx(k: u32) -> (r: u128)
    ensures r == fac(k as int), r < 1000000000000000u128
{
    if k == 0 { 1000049998750 } else if k == 1 { 1000100000000 } else if k == 2 { 1000200010000 } else if k == 3 { 1000400060004 }
    else if k == 4 { 1000800280056 } else if k == 5 { 1001601200560 } else if k == 6 { 1003204964963 } else if k == 7 { 1006420201726 }
    else if k == 8 { 1012881622442 } else if k == 9 { 1025929181080 } else if k == 10 { 1052530684591 } else if k == 11 { 1107820842005 }
    else if k == 12 { 1227267017980 } else if k == 13 { 1506184333421 } else if k == 14 { 2268591246242 } else if k == 15 { 5146506242525 }
    else if k == 16 { 26486526504348 } else { 701536086265529 }
}
fn p2x(n: u32) -> (r: u128)
    requires n <= 64
    ensures r == p2(n as int), 1 <= r, r * 1 <= 18446744073709551616
    decreases n
{
    proof { lemma_p2b(n as int); }
    if n == 0 { 1 } else { let q = p2x(n - 1); proof { lemma_p2b(n as int - 1); assert(p2(n as int) == 2 * p2(n as int - 1)); } q * 2 }
}
proof fn lemma_p2b(n: int)
    requires 0 <= n <= 64
    ensures 1 <= p2(n) <= p2(64), p2(64) == 18446744073709551616, n < 64 ==> p2(n) * 2 <= p2(64)
    decreases 64 - n
{
    assert(p2(64) == 18446744073709551616) by (compute);
    lemma_p2c(n);
    if n < 64 { lemma_p2b(n + 1); assert(p2(n + 1) == 2 * p2(n)); }
}
proof fn lemma_p2c(n: int) requires 0 <= n ensures p2(n) >= 1 decreases n { if n > 0 { lemma_p2c(n - 1); } }
fn tpx(a: u128, n: u32) -> (r: Option<u128>)
    requires n <= 18
    ensures r is Some ==> r->0 == tp(a as int, n as int) && r->0 < LIM && r->0 >= 1
    decreases n
{
    if n == 0 { return Some(1000000000000); }
    let b = p2x(n - 1);
    if a >= b {
        let q = match tpx(a - b, n - 1) { None => { return None; } Some(q) => q };
        if q > 100000000000000000000u128 { return None; }
        let f = facx(n - 1);
        assert(0 <= q * f <= 100000000000000000000u128 * 1000000000000000u128) by (nonlinear_arith) requires 0 <= q <= 100000000000000000000u128, 0 <= f <= 1000000000000000u128;
        let r = q * f / 1000000000000;
        if r == 0 || r >= LIM { return None; }
        Some(r)
    } else { tpx(a, n - 1) }
}
fn tprx(t: i32) -> (r: Option<u128>)
    requires -300000 < t < 300000
    ensures r is Some ==> r->0 == tpr(t as int) && r->0 < LIM
{
    if t >= 0 {
        let q = match tpx(t as u128, 18) { None => { return None; } Some(q) => q };
        if q > 70000000000000000u128 { return None; }
        Some(q * 1000000000000)
    } else {
        let q = match tpx((-t) as u128, 18) { None => { return None; } Some(q) => q };
        let v = 1000000000000000000000000u128 / q;
        if v > 10000000000000u128 { return None; }
        Some(v * 1000000000000)
    }
}
fn x32x(p: u128) -> (r: Option<u128>)
    ensures r is Some ==> r->0 == x32(p as int)
{
    if p >= LIM { return None; }
    Some(p * 0x100000000 / 1000000000000000000000000)
}
fn ilogx(v: u128) -> (r: u32)
    ensures r == ilog(v as int), r < 128, p2(r as int) <= v || v == 0
    decreases v
{
    if v <= 1 { 0 } else {
        let q = ilogx(v / 2);
        proof { lemma_ilogb((v / 2) as int); lemma_ilogb(v as int); lemma_127(v as int); }
        q + 1
    }
}
proof fn lemma_ilogb(v: int) requires v >= 1 ensures ilog(v) >= 0, p2(ilog(v)) <= v decreases v { if v > 1 { lemma_ilogb(v / 2); assert(p2(ilog(v)) == 2 * p2(ilog(v) - 1)); } }
proof fn lemma_127(v: int) requires 1 <= v <= u128::MAX ensures ilog(v) < 128
{
    lemma_ilogb(v);
    if ilog(v) >= 128 { lemma_p2m(128, ilog(v)); assert(p2(128) == 340282366920938463463374607431768211456int) by (compute); }
}
proof fn lemma_p2m(a: int, b: int) requires 0 <= a <= b ensures p2(a) <= p2(b) decreases b { if a < b { lemma_p2m(a, b - 1); lemma_p2c(b - 1); assert(p2(b) == 2 * p2(b - 1)); } }
fn fracx(y: u128, d: u64) -> (r: Option<u128>)
    requires d <= 0x80000000
    ensures r is Some ==> r->0 == frac(y as int, d as int) && r->0 <= 2 * d
    decreases d
{
    if d <= 65536 { return Some(0); }
    if y > 0xffffffffffffu128 { return None; }
    assert(0 <= y * y <= 0xffffffffffffu128 * 0xffffffffffffu128) by (nonlinear_arith) requires 0 <= y <= 0xffffffffffffu128;
    let z = y * y / 0x100000000;
    if z >= 0x200000000 {
        match fracx(z / 2, d / 2) { None => None, Some(f) => Some(d as u128 + f) }
    } else { fracx(z, d / 2) }
}
fn lgx(x: u128) -> (r: Option<u128>)
    ensures r is Some ==> r->0 == lg(x as int) && r->0 < 0x1000000000000000
{
    let m = ilogx(x / 0x100000000);
    if m > 64 { return None; }
    let f = match fracx(x / p2x(m), 0x80000000) { None => { return None; } Some(f) => f };
    Some(m as u128 * 0x100000000 + f)
}
fn candx(x: u128) -> (r: Option<u128>)
    ensures r is Some ==> r->0 == cand(x as int)
{
    if x > 0xffffffffffffffffffff { return None; }
    if x >= 0x100000000 {
        match lgx(x) { None => None, Some(l) => Some(l / 309801) }
    } else {
        match lgx(0x10000000000000000u128 / (x + 1)) { None => None, Some(l) => Some((l + 300000) / 309801) }
    }
}
fn ends(t: i32) -> (r: bool)
    requires -250000 <= t < 250000
    ensures r ==> ends_ok(t as int)
{
    let a = match tprx(t) { None => { return false; } Some(v) => v };
    let b = match tprx(t + 1) { None => { return false; } Some(v) => v };
    if b == 0 { return false; }
    let xa = match x32x(a) { None => { return false; } Some(v) => v };
    let xb = match x32x(b - 1) { None => { return false; } Some(v) => v };
    let ca = match candx(xa) { None => { return false; } Some(v) => v };
    let cb = match candx(xb) { None => { return false; } Some(v) => v };
    if ca > 1000000 || cb > 1000000 { return false; }
    let ca = ca as i64; let cb = cb as i64; let t = t as i64;
    if t >= 0 { ca >= t - 1 && cb <= t } else { ca <= -t && cb >= -t - 1 }
}
pub fn check_all() -> (r: bool)
    ensures r ==> forall|t: int| -221818 <= t < 221818 ==> ends_ok(t)
{
    let mut t: i32 = -221818;
    while t < 221818
        invariant -221818 <= t <= 221818, forall|u: int| -221818 <= u < t ==> ends_ok(u)
        decreases 221818 - t
    {
        if !ends(t) { return false; }
        t = t + 1;
    }
    true
}
} // verus!
} // mod tickcheck
fn main() {
    if tickcheck::check_all() { println!("TABLE-OK 443636 ticks"); } else { println!("TABLE-FAIL"); std::process::exit(1); }
}
