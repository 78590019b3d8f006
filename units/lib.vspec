//@ include pre.vspec
//@ include expr.vspec
//@ include std.vspec
//@ include coll.vspec
//@ raw
verus! {
// ---------------------------------------------------------------- evaluation, as the library sees it
/// What evaluating an expression does: its result, and the environment (with everything
/// outside that evaluation can touch) afterwards. Nothing is assumed about it, so a
/// contract that threads it fixes which evaluations happen, how often and in which order.
pub uninterp spec fn evals(x: Expression, e: Environment) -> (Result<Expression, Error>, Environment);
pub open spec fn ev(x: Expression, e: Environment) -> Result<Expression, Error> { evals(x, e).0 }
pub open spec fn af(x: Expression, e: Environment) -> Environment { evals(x, e).1 }
impl Expression {
    #[verifier::external_body]
    pub fn eval(&self, env: &mut Environment) -> (r: Result<Expression, Error>)
        ensures r == ev(*self, *old(env)), *final(env) == af(*self, *old(env)),
    { unimplemented!() }
}
pub uninterp spec fn parsed(s: Seq<char>) -> Result<Expression, Error>;
#[verifier::external_body]
pub fn parse<S: VxStr + ?Sized>(s: &S) -> (r: Result<Expression, Error>)
    ensures r == parsed(s.txt()),
{ unimplemented!() }
} // verus!
//@ end
