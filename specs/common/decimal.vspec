#rem templates of packages/decimal-core (instantiated per decimal type)
#impl @decimal
impl PartialOrdSpecImpl for $NAME {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &$NAME) -> Option<core::cmp::Ordering> {
        if self.0 < o.0 { Some(core::cmp::Ordering::Less) } else if self.0 == o.0 { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for $NAME { #[verifier::external_body] fn partial_cmp(&self, o: &$NAME) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl AddSpecImpl<$NAME> for $NAME {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: $NAME) -> bool { true }
    open spec fn add_spec(self, o: $NAME) -> $NAME { $NAME((self.0 + o.0) as $UNDER) }
}
impl SubSpecImpl<$NAME> for $NAME {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: $NAME) -> bool { true }
    open spec fn sub_spec(self, o: $NAME) -> $NAME { $NAME((self.0 - o.0) as $UNDER) }
}
impl<T: Decimal> MulSpecImpl<T> for $NAME {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: T) -> bool { true }
    open spec fn mul_spec(self, o: T) -> $NAME { $NAME((self.0 * o.dv() / T::done()) as $UNDER) }
}
impl<T: Decimal> DivSpecImpl<T> for $NAME {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: T) -> bool { true }
    open spec fn div_spec(self, o: T) -> $NAME { $NAME((self.0 * T::done() / o.dv()) as $UNDER) }
}
impl AddAssignSpecImpl<$NAME> for $NAME {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: $NAME) -> bool { true }
    open spec fn add_assign_spec(&self, o: $NAME) -> &$NAME { &$NAME((self.0 + o.0) as $UNDER) }
}
impl SubAssignSpecImpl<$NAME> for $NAME {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, o: $NAME) -> bool { true }
    open spec fn sub_assign_spec(&self, o: $NAME) -> &$NAME { &$NAME((self.0 - o.0) as $UNDER) }
}
impl MulAssignSpecImpl<$NAME> for $NAME {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: $NAME) -> bool { true }
    open spec fn mul_assign_spec(&self, o: $NAME) -> &$NAME { &$NAME((self.0 * o.0 / $ONE) as $UNDER) }
}
impl DivAssignSpecImpl<$NAME> for $NAME {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, o: $NAME) -> bool { true }
    open spec fn div_assign_spec(&self, o: $NAME) -> &$NAME { &$NAME((self.0 * $ONE / o.0 as int) as $UNDER) }
}
#impl *::Decimal
    open spec fn dv(self) -> int { self.0 as int }
    open spec fn dmax() -> int { $UNDER::MAX as int }
    open spec fn done() -> int { $ONE }
    open spec fn dscale() -> int { $SCALE }
    proof fn dlaws(self) { assert(vpow(10, $SCALE) == $ONE) by (compute); }
#fn *::Add::add
    ensures r.0 == self.0 + rhs.0
#fn *::Sub::sub
    ensures r.0 == self.0 - rhs.0
#fn *::Mul::mul
    ensures r.0 == self.0 * rhs.dv() / T::done()
#start
    proof { rhs.dlaws(); }
#fn *::Div::div
    ensures rhs.dv() > 0, r.0 == self.0 * T::done() / rhs.dv()
#start
    proof { rhs.dlaws(); }
#fn *::AddAssign::add_assign
    ensures final(self).0 == old(self).0 + rhs.0
#fn *::SubAssign::sub_assign
    ensures final(self).0 == old(self).0 - rhs.0
#fn *::MulAssign::mul_assign
    ensures final(self).0 == old(self).0 * rhs.0 / Self::done()
#fn *::DivAssign::div_assign
    ensures rhs.0 > 0, final(self).0 == old(self).0 * Self::done() / rhs.0 as int
#fn math::types::*::is_zero
    ensures r == (self.0 == 0)
#skip *::Display formatting only
#fn *::BigOps::checked_big_div
#start
    proof { rhs.dlaws(); }
#fn *::BetweenDecimals::from_decimal
#start
    proof { other.dlaws(); }
#fn *::BetweenDecimals::checked_from_decimal
#start
    proof { other.dlaws(); }
#fn *::BetweenDecimals::from_decimal_up
#start
    proof { other.dlaws(); }
#fn *::BetweenDecimalsToValue::checked_from_decimal_to_value
#start
    proof { other.dlaws(); }
