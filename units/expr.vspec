//@ include convert.vspec
//@ raw
verus! {
// ---------------------------------------------------------------- parsing errors, not looked into
#[verifier::external_body]
pub struct SyntaxError { p: u8 }
/// detached_str::Str
#[verifier::external_body]
pub struct Str { p: Box<str> }
} // verus!
//@ end
//@ include exprcore.vspec
