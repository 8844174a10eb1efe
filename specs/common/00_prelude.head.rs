// Hand-written shim: TRUSTED. Specifies the parts of the outside world the extracted code uses
// (integer conversions, the `uint` crate's U256/U320, panics) and the trait-level contracts of
// the `decimal` crate's traits (whose implementations ARE extracted and verified).
#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, unreachable_code, unused_assignments, non_upper_case_globals, non_camel_case_types, unused_must_use, unused_labels, unused_unsafe)]
use vstd::prelude::*;
pub mod prelude {
pub use vstd::prelude::*;
pub use vstd::std_specs::ops::*;
pub use vstd::std_specs::cmp::*;
pub use vstd::arithmetic::div_mod::*;
pub use vstd::arithmetic::mul::*;
pub use crate::vmath::*;
pub use crate::vtick::*;
pub use crate::vtab::*;
pub use crate::vtickm::*;
pub use crate::vlog::*;
pub use crate::vfee::*;
pub use crate::vext::*;
pub use crate::vpool::*;
pub use crate::vstate::*;
pub use crate::vswap::*;
pub use crate::vexec::*;
pub use crate::vquery::*;
pub use crate::vest::*;
pub use crate::vbits::*;
verus! {

/// modelled panic: the call never returns (the transaction reverts)
#[verifier::external_body]
pub fn vpanic<T>() -> (r: T) ensures false { panic!() }

pub open spec fn max256() -> int { 18446744073709551616 * 18446744073709551616 * 18446744073709551616 * 18446744073709551616 - 1 }
pub open spec fn max320() -> int { 18446744073709551616 * 18446744073709551616 * 18446744073709551616 * 18446744073709551616 * 18446744073709551616 - 1 }

pub trait VUnwrap<T>: Sized {
    spec fn vok(self) -> bool;
    spec fn vval(self) -> T;
    fn vunwrap(self) -> (r: T) ensures self.vok(), r == self.vval();
}
impl<T> VUnwrap<T> for Option<T> {
    open spec fn vok(self) -> bool { self is Some }
    open spec fn vval(self) -> T { self->Some_0 }
    #[verifier::external_body]
    fn vunwrap(self) -> (r: T) { self.unwrap() }
}
impl<T, E> VUnwrap<T> for Result<T, E> {
    open spec fn vok(self) -> bool { self is Ok }
    open spec fn vval(self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn vunwrap(self) -> (r: T) { match self { Ok(v) => v, Err(_) => panic!() } }
}

pub struct VErr {}

pub trait VNum: Sized + Copy {
    spec fn v(self) -> int;
    spec fn vmin() -> int;
    spec fn vmax() -> int;
    proof fn vlaw(self) ensures Self::vmin() <= self.v() <= Self::vmax();
    fn vraw(self) -> (bool, u128);
    fn vmake(r: (bool, u128)) -> Option<Self>;
    // num_traits::ops::checked
    fn checked_add(&self, o: &Self) -> (r: Option<Self>)
        ensures (r is Some) == (Self::vmin() <= self.v() + o.v() <= Self::vmax()), r is Some ==> r->Some_0.v() == self.v() + o.v();
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>)
        ensures (r is Some) == (Self::vmin() <= self.v() - o.v() <= Self::vmax()), r is Some ==> r->Some_0.v() == self.v() - o.v();
    fn checked_div(&self, o: &Self) -> (r: Option<Self>)
        ensures Self::vmin() == 0 ==> (r is Some) == (o.v() != 0),
            Self::vmin() == 0 && r is Some ==> r->Some_0.v() == self.v() / o.v();
}
/// integer conversions (core TryFrom/TryInto/From between integer types)
pub trait VConv: VNum {
    fn vtry_from<S: VNum>(s: S) -> (r: Result<Self, VErr>)
        ensures
            (r is Ok) == (Self::vmin() <= s.v() <= Self::vmax()),
            r is Ok ==> r->Ok_0.v() == s.v();
    fn vfrom<S: VNum>(s: S) -> (r: Self) ensures r.v() == s.v();
    fn vtry_into<T: VNum>(self) -> (r: Result<T, VErr>)
        ensures
            (r is Ok) == (T::vmin() <= self.v() <= T::vmax()),
            r is Ok ==> r->Ok_0.v() == self.v();
}
impl<A: VNum> VConv for A {
    #[verifier::external_body]
    fn vtry_from<S: VNum>(s: S) -> (r: Result<Self, VErr>) { A::vmake(s.vraw()).ok_or(VErr {}) }
    #[verifier::external_body]
    fn vfrom<S: VNum>(s: S) -> (r: Self) { A::vmake(s.vraw()).unwrap() }
    #[verifier::external_body]
    fn vtry_into<T: VNum>(self) -> (r: Result<T, VErr>) { T::vmake(self.vraw()).ok_or(VErr {}) }
}
/// truncating division and remainder (Rust semantics)
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b >= 0 { a / b } else { -(a / (-b)) } } else { if b >= 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
/// native integer operators, panicking on overflow / zero divisor as compiled (overflow-checks = true)
#[verifier::external_body]
pub fn vadd<T: VNum>(a: T, b: T) -> (r: T) ensures r.v() == a.v() + b.v(), T::vmin() <= r.v() <= T::vmax() { unimplemented!() }
#[verifier::external_body]
pub fn vsub<T: VNum>(a: T, b: T) -> (r: T) ensures r.v() == a.v() - b.v(), T::vmin() <= r.v() <= T::vmax() { unimplemented!() }
#[verifier::external_body]
pub fn vmul<T: VNum>(a: T, b: T) -> (r: T) ensures r.v() == a.v() * b.v(), T::vmin() <= r.v() <= T::vmax() { unimplemented!() }
#[verifier::external_body]
pub fn vdiv<T: VNum>(a: T, b: T) -> (r: T) ensures b.v() != 0, r.v() == tdiv(a.v(), b.v()), T::vmin() <= r.v() <= T::vmax() { unimplemented!() }
#[verifier::external_body]
pub fn vrem<T: VNum>(a: T, b: T) -> (r: T) ensures b.v() != 0, r.v() == trem(a.v(), b.v()), T::vmin() <= r.v() <= T::vmax() { unimplemented!() }
#[verifier::external_body]
pub fn vneg<T: VNum>(a: T) -> (r: T) ensures r.v() == -a.v(), T::vmin() <= r.v() <= T::vmax() { unimplemented!() }
pub trait VInto<T> { 
    spec fn vinto_spec(self, r: T) -> bool;
    fn vinto(self) -> (r: T) ensures self.vinto_spec(r);
}
impl<A: VNum, B: VNum> VInto<B> for A {
    open spec fn vinto_spec(self, r: B) -> bool { r.v() == self.v() }
    #[verifier::external_body]
    fn vinto(self) -> (r: B) { B::vmake(self.vraw()).unwrap() }
}

} // verus!
macro_rules! vnum_int { ($($t:ident, $lo:expr, $hi:expr);*) => { $( verus! {
impl VNum for $t {
    open spec fn v(self) -> int { self as int }
    open spec fn vmin() -> int { $t::MIN as int }
    open spec fn vmax() -> int { $t::MAX as int }
    proof fn vlaw(self) {}
    #[verifier::external_body]
    fn vraw(self) -> (bool, u128) { #[allow(unused_comparisons)] if self < 0 { (true, (self as i128).unsigned_abs()) } else { (false, self as u128) } }
    #[verifier::external_body]
    fn vmake(r: (bool, u128)) -> Option<Self> { if r.0 { i128::try_from(r.1).ok().and_then(|x| $t::try_from(-x).ok()) } else { $t::try_from(r.1).ok() } }
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { $t::checked_add(*self, *o) }
    #[verifier::external_body]
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>) { $t::checked_sub(*self, *o) }
    #[verifier::external_body]
    fn checked_div(&self, o: &Self) -> (r: Option<Self>) { $t::checked_div(*self, *o) }
}
} )* } }
vnum_int!(u8,0,0; u16,0,0; u32,0,0; u64,0,0; u128,0,0; usize,0,0; i32,0,0; i64,0,0; i128,0,0);

verus! {
/// other core integer methods
pub trait VOps: VNum {
    fn vminof(self, o: Self) -> (r: Self) ensures r == (if self.v() <= o.v() { self } else { o });
    fn vmaxof(self, o: Self) -> (r: Self) ensures r == (if self.v() >= o.v() { self } else { o });
    fn vsat_add(self, o: Self) -> (r: Self)
        ensures r.v() == (if self.v() + o.v() > Self::vmax() { Self::vmax() } else if self.v() + o.v() < Self::vmin() { Self::vmin() } else { self.v() + o.v() });
    fn vsat_sub(self, o: Self) -> (r: Self)
        ensures r.v() == (if self.v() - o.v() > Self::vmax() { Self::vmax() } else if self.v() - o.v() < Self::vmin() { Self::vmin() } else { self.v() - o.v() });
}
impl<A: VNum> VOps for A {
    #[verifier::external_body]
    fn vminof(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vmaxof(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vsat_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vsat_sub(self, o: Self) -> (r: Self) { unimplemented!() }
}
pub open spec fn popcount(v: u64, n: int) -> int decreases n { if n <= 0 { 0 } else { popcount(v, n - 1) + (if (v >> ((n - 1) as u64)) & 1 == 1 { 1int } else { 0int }) } }
pub trait VBitOps: Sized {
    spec fn vrem_spec(self, o: Self) -> Option<Self>;
    spec fn vshl_spec(self, o: u32) -> Option<Self>;
    spec fn vcount_spec(self) -> int;
    fn vchecked_rem(self, o: Self) -> (r: Option<Self>) ensures r == self.vrem_spec(o);
    fn vchecked_shl(self, o: u32) -> (r: Option<Self>) ensures r == self.vshl_spec(o);
    fn vcount_ones(self) -> (r: u32) ensures r == self.vcount_spec();
}
impl VBitOps for u64 {
    open spec fn vrem_spec(self, o: u64) -> Option<u64> { if o == 0 { None } else { Some((self % o) as u64) } }
    open spec fn vshl_spec(self, o: u32) -> Option<u64> { if o >= 64 { None } else { Some(self << o) } }
    open spec fn vcount_spec(self) -> int { popcount(self, 64) }
    #[verifier::external_body]
    fn vchecked_rem(self, o: u64) -> (r: Option<u64>) { unimplemented!() }
    #[verifier::external_body]
    fn vchecked_shl(self, o: u32) -> (r: Option<u64>) { unimplemented!() }
    #[verifier::external_body]
    fn vcount_ones(self) -> (r: u32) { unimplemented!() }
}
impl VBitOps for u128 {
    open spec fn vrem_spec(self, o: u128) -> Option<u128> { if o == 0 { None } else { Some((self % o) as u128) } }
    open spec fn vshl_spec(self, o: u32) -> Option<u128> { if o >= 128 { None } else { Some(self << o) } }
    uninterp spec fn vcount_spec(self) -> int;
    #[verifier::external_body]
    fn vchecked_rem(self, o: u128) -> (r: Option<u128>) { unimplemented!() }
    #[verifier::external_body]
    fn vchecked_shl(self, o: u32) -> (r: Option<u128>) { unimplemented!() }
    #[verifier::external_body]
    fn vcount_ones(self) -> (r: u32) { unimplemented!() }
}
} // verus!
macro_rules! vnum_big { ($t:ident, $limbs:expr, $max:expr) => { verus! {
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct $t { limbs: [u64; $limbs] }
impl $t {
    pub uninterp spec fn val(self) -> int;
    #[verifier::external_body]
    pub broadcast proof fn range(self) ensures #![trigger self.val()] 0 <= self.val() <= $max {}
    /// extensionality: a value of the big type is its number
    #[verifier::external_body]
    pub broadcast proof fn ext(a: Self, b: Self) ensures #![trigger a.val(), b.val()] a.val() == b.val() ==> a == b {}
    #[verifier::external_body]
    pub fn checked_add(self, o: Self) -> (r: Option<Self>) ensures (r is Some) == (self.val() + o.val() <= $max), r is Some ==> r->Some_0.val() == self.val() + o.val() { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, o: Self) -> (r: Option<Self>) ensures (r is Some) == (self.val() >= o.val()), r is Some ==> r->Some_0.val() == self.val() - o.val() { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(self, o: Self) -> (r: Option<Self>) ensures (r is Some) == (self.val() * o.val() <= $max), r is Some ==> r->Some_0.val() == self.val() * o.val() { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_div(self, o: Self) -> (r: Option<Self>) ensures (r is Some) == (o.val() != 0), r is Some ==> r->Some_0.val() == self.val() / o.val() { unimplemented!() }
    #[verifier::external_body]
    pub fn pow(self, e: Self) -> (r: Self) ensures e.val() >= 0 ==> r.val() == vpow(self.val(), e.val() as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.val() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: Self) ensures r.val() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: Self) ensures r.val() == 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u128(self) -> (r: u128) ensures r as int == self.val() { unimplemented!() }
}
impl VNum for $t {
    open spec fn v(self) -> int { self.val() }
    open spec fn vmin() -> int { 0 }
    open spec fn vmax() -> int { $max }
    proof fn vlaw(self) { self.range(); }
    #[verifier::external_body]
    fn vraw(self) -> (bool, u128) { unimplemented!() }
    #[verifier::external_body]
    fn vmake(r: (bool, u128)) -> Option<Self> { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_div(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
impl PartialEqSpecImpl for $t { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &$t) -> bool { self.val() == o.val() } }
impl PartialEq for $t { #[verifier::external_body] fn eq(&self, o: &$t) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for $t {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &$t) -> Option<core::cmp::Ordering> {
        if self.val() < o.val() { Some(core::cmp::Ordering::Less) } else if self.val() == o.val() { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for $t { #[verifier::external_body] fn partial_cmp(&self, o: &$t) -> Option<core::cmp::Ordering> { unimplemented!() } }
} } }
vnum_big!(U256, 4, max256());
vnum_big!(U320, 5, max320());

macro_rules! big_binop { ($t:ident, $tr:ident, $sp:ident, $f:ident, $obeys:ident, $req:ident, $spec:ident, $cond:expr, $val:expr) => { verus! {
impl $sp<$t> for $t {
    open spec fn $obeys() -> bool { true }
    open spec fn $req(self, o: $t) -> bool { true }
    open spec fn $spec(self, o: $t) -> $t { choose|r: $t| r.val() == $val(self.val(), o.val()) }
}
impl core::ops::$tr<$t> for $t { type Output = $t;
    #[verifier::external_body]
    fn $f(self, o: $t) -> (r: $t) ensures $cond(self.val(), o.val()), r.val() == $val(self.val(), o.val()) { unimplemented!() } }
} } }
verus! {
pub open spec fn sp_add(a: int, b: int) -> int { a + b }
pub open spec fn sp_sub(a: int, b: int) -> int { a - b }
pub open spec fn sp_mul(a: int, b: int) -> int { a * b }
pub open spec fn sp_div(a: int, b: int) -> int { a / b }
pub open spec fn sp_true(a: int, b: int) -> bool { true }
pub open spec fn sp_ge(a: int, b: int) -> bool { a >= b }
pub open spec fn sp_nz(a: int, b: int) -> bool { b != 0 }
}
big_binop!(U256, Add, AddSpecImpl, add, obeys_add_spec, add_req, add_spec, sp_true, sp_add);
big_binop!(U256, Sub, SubSpecImpl, sub, obeys_sub_spec, sub_req, sub_spec, sp_ge, sp_sub);
big_binop!(U256, Mul, MulSpecImpl, mul, obeys_mul_spec, mul_req, mul_spec, sp_true, sp_mul);
big_binop!(U256, Div, DivSpecImpl, div, obeys_div_spec, div_req, div_spec, sp_nz, sp_div);
big_binop!(U320, Add, AddSpecImpl, add, obeys_add_spec, add_req, add_spec, sp_true, sp_add);
big_binop!(U320, Mul, MulSpecImpl, mul, obeys_mul_spec, mul_req, mul_spec, sp_true, sp_mul);
big_binop!(U320, Div, DivSpecImpl, div, obeys_div_spec, div_req, div_spec, sp_nz, sp_div);
verus! {
impl<T: VNum> SubSpecImpl<T> for U320 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: T) -> bool { true }
    open spec fn sub_spec(self, o: T) -> U320 { choose|r: U320| r.val() == self.val() - o.v() }
}
impl<T: VNum> core::ops::Sub<T> for U320 { type Output = U320;
    #[verifier::external_body]
    fn sub(self, o: T) -> (r: U320) ensures self.val() >= o.v(), r.val() == self.val() - o.v() { unimplemented!() } }

// packages/decimal/src/uint.rs conversions (assumed; bounded-checked by the harness)
#[verifier::external_body]
pub fn u256_to_u320(n: U256) -> (r: U320) ensures r.val() == n.val() { unimplemented!() }
#[verifier::external_body]
pub fn checked_u320_to_u256(n: U320) -> (r: Option<U256>)
    ensures (r is Some) == (n.val() <= max256()), r is Some ==> r->Some_0.val() == n.val() { unimplemented!() }
#[verifier::external_body]
pub fn to_u256(n: u128) -> (r: U256) ensures r.val() == n { unimplemented!() }

pub broadcast group vgroup { U256::range, U320::range }

pub open spec fn vpow(b: int, n: nat) -> int decreases n { if n == 0 { 1 } else { b * vpow(b, (n - 1) as nat) } }
pub open spec fn pow10(n: int) -> int { vpow(10, n as nat) }

pub assume_specification[ u128::checked_pow ](b: u128, e: u32) -> (r: Option<u128>)
    ensures (r is Some) == (vpow(b as int, e as nat) <= u128::MAX), r is Some ==> r->Some_0 as int == vpow(b as int, e as nat);
pub assume_specification[ i32::abs ](x: i32) -> (r: i32)
    ensures r >= 0, r == x || r == -x, x != i32::MIN;
pub assume_specification[ i32::rem_euclid ](x: i32, y: i32) -> (r: i32)
    ensures y != 0, y > 0 ==> r as int == (x as int) % (y as int);

/// real ceiling of a/b for b > 0 (see lemma_cdiv_is_ceiling)
pub open spec fn cdiv(a: int, b: int) -> int { (a + b - 1) / b }

// ---------------- packages/decimal traits: trait-level contracts ----------------
pub trait Decimal: Sized + Copy {
    type U: VNum;
    spec fn dv(self) -> int;
    spec fn dmax() -> int;
    spec fn done() -> int;
    spec fn dscale() -> int;
    proof fn dlaws(self) ensures 0 <= self.dv() <= Self::dmax() <= max256(), 1 <= Self::done(), 0 <= Self::dscale() <= 38, Self::done() == pow10(Self::dscale()), Self::U::vmin() == 0, Self::U::vmax() == Self::dmax();
    fn get(&self) -> (r: Self::U) ensures r.v() == self.dv();
    fn new(value: Self::U) -> (r: Self) ensures r.dv() == value.v();
    fn max_instance() -> (r: Self) ensures r.dv() == Self::dmax();
    fn max_value() -> (r: Self::U) ensures r.v() == Self::dmax();
    fn here<T: VNum>(&self) -> (r: T) ensures r.v() == self.dv();
    fn scale() -> (r: u8) ensures r as int == Self::dscale();
    fn one<T: VNum>() -> (r: T) ensures r.v() == Self::done();
    fn checked_one<T: VNum>() -> (r: Result<T, String>) ensures (r is Ok) == (T::vmin() <= Self::done() <= T::vmax()), r is Ok ==> r->Ok_0.v() == Self::done();
    fn almost_one<T: VNum>() -> (r: T) ensures r.v() == Self::done() - 1;
}
pub trait BigOps<T: Decimal>: Decimal {
    fn big_mul(self, rhs: T) -> (r: Self) ensures r.dv() == self.dv() * rhs.dv() / T::done();
    fn big_mul_up(self, rhs: T) -> (r: Self) ensures r.dv() == cdiv(self.dv() * rhs.dv(), T::done());
    fn big_div(self, rhs: T) -> (r: Self) ensures rhs.dv() > 0, r.dv() == self.dv() * T::done() / rhs.dv();
    fn checked_big_div(self, rhs: T) -> (r: Result<Self, String>)
        ensures r is Ok ==> rhs.dv() > 0 && r->Ok_0.dv() == self.dv() * T::done() / rhs.dv(),
            (r is Ok) == (rhs.dv() > 0 && self.dv() * T::done() <= max256() && self.dv() * T::done() / rhs.dv() <= Self::dmax());
    fn big_div_up(self, rhs: T) -> (r: Self) ensures rhs.dv() > 0, r.dv() == cdiv(self.dv() * T::done(), rhs.dv());
}
pub trait Others<T: Decimal>: Decimal {
    fn mul_up(self, rhs: T) -> (r: Self) ensures r.dv() == cdiv(self.dv() * rhs.dv(), T::done());
    fn div_up(self, rhs: T) -> (r: Self) ensures rhs.dv() > 0, r.dv() == cdiv(self.dv() * T::done(), rhs.dv());
}
pub trait OthersSameType: Decimal {
    fn sub_abs(self, rhs: Self) -> (r: Self) ensures r.dv() == (if self.dv() > rhs.dv() { self.dv() - rhs.dv() } else { rhs.dv() - self.dv() });
}
pub open spec fn rescale(v: int, from: int, to: int) -> int { if to > from { v * pow10(to - from) } else { v / pow10(from - to) } }
pub open spec fn rescale_up(v: int, from: int, to: int) -> int { if to > from { v * pow10(to - from) } else { cdiv(v, pow10(from - to)) } }
pub trait Factories<T: VNum>: Decimal {
    fn from_integer(integer: T) -> (r: Self) ensures r.dv() == integer.v() * Self::done();
    fn from_scale(val: T, scale: u8) -> (r: Self) ensures T::vmin() == 0 ==> r.dv() == rescale(val.v(), scale as int, Self::dscale());
    fn checked_from_scale(val: T, scale: u8) -> (r: Result<Self, String>)
        ensures T::vmin() == 0 && r is Ok ==> r->Ok_0.dv() == rescale(val.v(), scale as int, Self::dscale());
    fn from_scale_up(val: T, scale: u8) -> (r: Self) ensures T::vmin() == 0 ==> r.dv() == rescale_up(val.v(), scale as int, Self::dscale());
}
pub trait BetweenDecimals<T: Decimal>: Decimal {
    fn from_decimal(other: T) -> (r: Self) ensures r.dv() == rescale(other.dv(), T::dscale(), Self::dscale());
    fn checked_from_decimal(other: T) -> (r: Result<Self, String>)
        ensures r is Ok ==> r->Ok_0.dv() == rescale(other.dv(), T::dscale(), Self::dscale());
    fn from_decimal_up(other: T) -> (r: Self) ensures r.dv() == rescale_up(other.dv(), T::dscale(), Self::dscale());
}
pub trait ToValue<T: Decimal, B: VNum>: Decimal {
    fn big_mul_to_value(self, rhs: T) -> (r: B) ensures r.v() == self.dv() * rhs.dv() / T::done();
    fn big_mul_to_value_up(self, rhs: T) -> (r: B) ensures r.v() == cdiv(self.dv() * rhs.dv(), T::done());
}
pub trait FactoriesToValue<T: VNum, B: VNum>: Decimal {
    fn checked_from_scale_to_value(val: T, scale: u8) -> (r: Result<B, String>)
        ensures T::vmin() == 0 && r is Ok ==> r->Ok_0.v() == rescale(val.v(), scale as int, Self::dscale());
}
pub trait BetweenDecimalsToValue<T: Decimal, B: VNum>: Decimal {
    fn checked_from_decimal_to_value(other: T) -> (r: Result<B, String>)
        ensures r is Ok ==> r->Ok_0.v() == rescale(other.dv(), T::dscale(), Self::dscale());
}
pub trait ByNumber<B: VNum>: Decimal {
    fn big_div_by_number(self, rhs: B) -> (r: Self) ensures rhs.v() > 0, r.dv() == self.dv() * Self::done() / rhs.v();
    fn big_div_by_number_up(self, rhs: B) -> (r: Self) ensures rhs.v() > 0, r.dv() == cdiv(self.dv() * Self::done(), rhs.v());
    fn checked_big_div_by_number(self, rhs: B) -> (r: Result<Self, String>)
        ensures r is Ok ==> rhs.v() > 0 && r->Ok_0.dv() == self.dv() * Self::done() / rhs.v();
    fn checked_big_div_by_number_up(self, rhs: B) -> (r: Result<Self, String>)
        ensures r is Ok ==> rhs.v() > 0 && r->Ok_0.dv() == cdiv(self.dv() * Self::done(), rhs.v());
}
pub trait CheckedOps: Decimal {
    fn checked_add(self, rhs: Self) -> (r: Result<Self, String>)
        ensures (r is Ok) == (self.dv() + rhs.dv() <= Self::dmax()), r is Ok ==> r->Ok_0.dv() == self.dv() + rhs.dv();
    fn checked_sub(self, rhs: Self) -> (r: Result<Self, String>)
        ensures (r is Ok) == (self.dv() >= rhs.dv()), r is Ok ==> r->Ok_0.dv() == self.dv() - rhs.dv();
    fn checked_div(self, rhs: Self) -> (r: Result<Self, String>)
        ensures (r is Ok) == (rhs.dv() > 0 && self.dv() * Self::done() <= Self::dmax()), r is Ok ==> r->Ok_0.dv() == self.dv() * Self::done() / rhs.dv();
}
} // verus!
} // mod prelude
