//@ include std.vspec
//@ raw
verus! {
/// str::parse
pub trait VxFromText: Sized { spec fn from_text(s: Seq<char>) -> Option<Self>; }
#[verifier::external_body]
pub struct VxParseError { p: u8 }
pub uninterp spec fn float_of(s: Seq<char>) -> Option<f64>;
impl VxFromText for f64 { open spec fn from_text(s: Seq<char>) -> Option<f64> { float_of(s) } }
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn dval(s: Seq<char>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + (s.last() as u32 - '0' as u32) as nat } }
/// the integer written: an optional sign and decimal digits
pub open spec fn written(s: Seq<char>) -> Option<int> {
    if digits(s) { Some(dval(s) as int) }
    else if s.len() > 0 && s[0] == '-' && digits(s.skip(1)) { Some(-dval(s.skip(1))) }
    else if s.len() > 0 && s[0] == '+' && digits(s.skip(1)) { Some(dval(s.skip(1)) as int) }
    else { None }
}
impl VxFromText for i64 {
    open spec fn from_text(s: Seq<char>) -> Option<i64> { match written(s) { Some(n) => exact(n), None => None } }
}
pub trait VxParse: VxStr {
    fn vx_parse<T: VxFromText>(&self) -> (r: Result<T, VxParseError>)
        ensures match r { Ok(v) => T::from_text(self.txt()) == Some(v), Err(_) => T::from_text(self.txt()) is None };
}
impl VxParse for str {
    #[verifier::external_body]
    fn vx_parse<T: VxFromText>(&self) -> (r: Result<T, VxParseError>) { unimplemented!() }
}
} // verus!
//@ end
