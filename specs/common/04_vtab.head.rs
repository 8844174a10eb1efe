// A02: tick prices and the logarithm the contract computes, as functions on integers (also compiled into the table checker).
pub mod vtab {
use vstd::prelude::*;
verus! {
pub open spec fn p2(n: int) -> int
    decreases n
{ if n <= 0 { 1 } else { 2 * p2(n - 1) } }
pub open spec fn fac(k: int) -> int {
    if k == 0 { 1000049998750 } else if k == 1 { 1000100000000 } else if k == 2 { 1000200010000 } else if k == 3 { 1000400060004 }
    else if k == 4 { 1000800280056 } else if k == 5 { 1001601200560 } else if k == 6 { 1003204964963 } else if k == 7 { 1006420201726 }
    else if k == 8 { 1012881622442 } else if k == 9 { 1025929181080 } else if k == 10 { 1052530684591 } else if k == 11 { 1107820842005 }
    else if k == 12 { 1227267017980 } else if k == 13 { 1506184333421 } else if k == 14 { 2268591246242 } else if k == 15 { 5146506242525 }
    else if k == 16 { 26486526504348 } else { 701536086265529 }
}
/// the product over the n low bits of a, top bit first
pub open spec fn tp(a: int, n: int) -> int
    decreases n
{
    if n <= 0 { 1000000000000 } else if a >= p2(n - 1) { tp(a - p2(n - 1), n - 1) * fac(n - 1) / 1000000000000 } else { tp(a, n - 1) }
}
/// price of a tick (scaled 1e24)
pub open spec fn tpr(t: int) -> int {
    if t >= 0 { tp(t, 18) * 1000000000000 } else { (1000000000000000000000000int / tp(-t, 18)) * 1000000000000 }
}
/// price as a 32.32 number
pub open spec fn x32(p: int) -> int { p * 0x100000000 / 1000000000000000000000000 }
pub open spec fn ilog(v: int) -> int
    decreases v
{ if v <= 1 { 0 } else { 1 + ilog(v / 2) } }
/// fraction bits by repeated squaring, down to the accuracy 2^16
pub open spec fn frac(y: int, d: int) -> int
    decreases d
{
    if d <= 65536 { 0 } else { let z = y * y / 0x100000000; if z >= 0x200000000 { d + frac(z / 2, d / 2) } else { frac(z, d / 2) } }
}
pub open spec fn lg(x: int) -> int { ilog(x / 0x100000000) * 0x100000000 + frac(x / p2(ilog(x / 0x100000000)), 0x80000000) }
pub open spec fn up32(x: int) -> bool { x >= 0x100000000 }
pub open spec fn lgs(x: int) -> int { if up32(x) { lg(x) } else { lg(0x10000000000000000int / (x + 1)) } }
/// distance from zero of the candidate tick nearer to zero
pub open spec fn cand(x: int) -> int { if up32(x) { lgs(x) / 309801 } else { (lgs(x) + 300000) / 309801 } }
/// the candidate at both ends of the price interval of tick t is right or one off towards zero
pub open spec fn ends_ok(t: int) -> bool {
    if t >= 0 { cand(x32(tpr(t))) >= t - 1 && cand(x32(tpr(t + 1) - 1)) <= t }
    else { cand(x32(tpr(t))) <= -t && cand(x32(tpr(t + 1) - 1)) >= -t - 1 }
}
} // verus!
} // mod vtab
