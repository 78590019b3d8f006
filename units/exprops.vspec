//@ raw
verus! {
// ---------------------------------------------------------------- operators on expressions
// What A01, A02 and A03 are about; here only which operator is applied to which operands counts.
pub uninterp spec fn xadd(a: Expression, b: Expression) -> Expression;
impl core::ops::Add for Expression {
    type Output = Expression;
    #[verifier::external_body]
    fn add(self, o: Expression) -> (r: Expression) { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<Expression> for Expression {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Expression) -> bool { true }
    open spec fn add_spec(self, o: Expression) -> Expression { xadd(self, o) }
}
pub uninterp spec fn xsub(a: Expression, b: Expression) -> Expression;
impl core::ops::Sub for Expression {
    type Output = Expression;
    #[verifier::external_body]
    fn sub(self, o: Expression) -> (r: Expression) { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<Expression> for Expression {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Expression) -> bool { true }
    open spec fn sub_spec(self, o: Expression) -> Expression { xsub(self, o) }
}
pub uninterp spec fn xmul(a: Expression, b: Expression) -> Expression;
impl core::ops::Mul for Expression {
    type Output = Expression;
    #[verifier::external_body]
    fn mul(self, o: Expression) -> (r: Expression) { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<Expression> for Expression {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Expression) -> bool { true }
    open spec fn mul_spec(self, o: Expression) -> Expression { xmul(self, o) }
}
pub uninterp spec fn xdiv(a: Expression, b: Expression) -> Expression;
impl core::ops::Div for Expression {
    type Output = Expression;
    #[verifier::external_body]
    fn div(self, o: Expression) -> (r: Expression) { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<Expression> for Expression {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Expression) -> bool { true }
    open spec fn div_spec(self, o: Expression) -> Expression { xdiv(self, o) }
}
pub uninterp spec fn xrem(a: Expression, b: Expression) -> Expression;
impl core::ops::Rem for Expression {
    type Output = Expression;
    #[verifier::external_body]
    fn rem(self, o: Expression) -> (r: Expression) { unimplemented!() }
}
impl vstd::std_specs::ops::RemSpecImpl<Expression> for Expression {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: Expression) -> bool { true }
    open spec fn rem_spec(self, o: Expression) -> Expression { xrem(self, o) }
}
pub uninterp spec fn xneg(a: Expression) -> Expression;
impl core::ops::Neg for Expression {
    type Output = Expression;
    #[verifier::external_body]
    fn neg(self) -> (r: Expression) { unimplemented!() }
}
impl vstd::std_specs::ops::NegSpecImpl for Expression {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Expression { xneg(self) }
}
pub uninterp spec fn xeq(a: Expression, b: Expression) -> bool;
impl core::cmp::PartialEq for Expression {
    #[verifier::external_body]
    fn eq(&self, o: &Expression) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Expression {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Expression) -> bool { xeq(*self, *o) }
}
pub uninterp spec fn xcmp(a: Expression, b: Expression) -> Option<Ordering>;
impl core::cmp::PartialOrd for Expression {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Expression) -> (r: Option<Ordering>) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Expression {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Expression) -> Option<Ordering> { xcmp(*self, *o) }
}
pub uninterp spec fn xindex(a: Expression, i: Expression) -> Expression;
impl<T: VxInto<Expression>> vstd::std_specs::core::IndexSpecImpl<T> for Expression {
    open spec fn index_req(&self, o: &T) -> bool { true }
}
impl<T: VxInto<Expression>> core::ops::Index<T> for Expression {
    type Output = Expression;
    #[verifier::external_body]
    fn index(&self, o: T) -> (r: &Expression) ensures *r == xindex(*self, o.conv()) { unimplemented!() }
}
} // verus!
//@ end
//@ include argc.vspec
