//@ raw
verus! {
pub use core::cmp::Ordering;
// ---------------------------------------------------------------- machine numbers
global size_of usize == 8;
pub open spec fn fits(x: int) -> bool { i64::MIN <= x <= i64::MAX }
pub open spec fn exact(x: int) -> Option<i64> { if fits(x) { Some(x as i64) } else { None } }
/// division truncating toward zero
pub open spec fn tdiv(a: int, b: int) -> int {
    if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } }
}
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
pub open spec fn mod64(x: int) -> int { let m = x % 0x1_0000_0000_0000_0000; if m > i64::MAX { m - 0x1_0000_0000_0000_0000 } else { m } }
pub trait VxInt: Sized {
    fn vx_checked_add(self, o: Self) -> Option<Self>;
    fn vx_checked_sub(self, o: Self) -> Option<Self>;
    fn vx_checked_mul(self, o: Self) -> Option<Self>;
    fn vx_checked_div(self, o: Self) -> Option<Self>;
    fn vx_checked_rem(self, o: Self) -> Option<Self>;
    fn vx_checked_neg(self) -> Option<Self>;
    fn vx_wrapping_add(self, o: Self) -> Self;
    fn vx_wrapping_sub(self, o: Self) -> Self;
    fn vx_wrapping_mul(self, o: Self) -> Self;
    fn vx_wrapping_neg(self) -> Self;
    fn vx_saturating_add(self, o: Self) -> Self;
    fn vx_saturating_sub(self, o: Self) -> Self;
    fn vx_saturating_mul(self, o: Self) -> Self;
    fn vx_max(self, o: Self) -> Self;
    fn vx_min(self, o: Self) -> Self;
    fn vx_is_negative(self) -> bool;
}
pub open spec fn sat(x: int) -> int { if x < i64::MIN { i64::MIN as int } else if x > i64::MAX { i64::MAX as int } else { x } }
impl VxInt for i64 {
    #[verifier::external_body]
    fn vx_checked_add(self, o: i64) -> (r: Option<i64>) ensures r == exact(self + o) { unimplemented!() }
    #[verifier::external_body]
    fn vx_checked_sub(self, o: i64) -> (r: Option<i64>) ensures r == exact(self - o) { unimplemented!() }
    #[verifier::external_body]
    fn vx_checked_mul(self, o: i64) -> (r: Option<i64>) ensures r == exact(self * o) { unimplemented!() }
    #[verifier::external_body]
    fn vx_checked_div(self, o: i64) -> (r: Option<i64>) ensures r == (if o == 0 { None } else { exact(tdiv(self as int, o as int)) }) { unimplemented!() }
    /// std: no value when the quotient overflows
    #[verifier::external_body]
    fn vx_checked_rem(self, o: i64) -> (r: Option<i64>) ensures r == (if o == 0 || (self == i64::MIN && o == -1) { None } else { exact(trem(self as int, o as int)) }) { unimplemented!() }
    #[verifier::external_body]
    fn vx_checked_neg(self) -> (r: Option<i64>) ensures r == exact(-self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_wrapping_add(self, o: i64) -> (r: i64) ensures r == mod64(self + o) { unimplemented!() }
    #[verifier::external_body]
    fn vx_wrapping_sub(self, o: i64) -> (r: i64) ensures r == mod64(self - o) { unimplemented!() }
    #[verifier::external_body]
    fn vx_wrapping_mul(self, o: i64) -> (r: i64) ensures r == mod64(self * o) { unimplemented!() }
    #[verifier::external_body]
    fn vx_wrapping_neg(self) -> (r: i64) ensures r == mod64(-self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_saturating_add(self, o: i64) -> (r: i64) ensures r == sat(self + o) { unimplemented!() }
    #[verifier::external_body]
    fn vx_saturating_sub(self, o: i64) -> (r: i64) ensures r == sat(self - o) { unimplemented!() }
    #[verifier::external_body]
    fn vx_saturating_mul(self, o: i64) -> (r: i64) ensures r == sat(self * o) { unimplemented!() }
    fn vx_max(self, o: i64) -> (r: i64) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } }
    fn vx_min(self, o: i64) -> (r: i64) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } }
    fn vx_is_negative(self) -> (r: bool) ensures r == (self < 0) { self < 0 }
}
/// what `as` converts: a whole number, or a float (whose conversion is not specified)
pub trait VxNum: Sized { spec fn whole(self) -> int; spec fn real(self) -> bool; }
impl VxNum for i64 { open spec fn whole(self) -> int { self as int } open spec fn real(self) -> bool { false } }
impl VxNum for u64 { open spec fn whole(self) -> int { self as int } open spec fn real(self) -> bool { false } }
impl VxNum for usize { open spec fn whole(self) -> int { self as int } open spec fn real(self) -> bool { false } }
impl VxNum for u32 { open spec fn whole(self) -> int { self as int } open spec fn real(self) -> bool { false } }
impl VxNum for i32 { open spec fn whole(self) -> int { self as int } open spec fn real(self) -> bool { false } }
impl VxNum for u8 { open spec fn whole(self) -> int { self as int } open spec fn real(self) -> bool { false } }
impl VxNum for char { open spec fn whole(self) -> int { self as u32 as int } open spec fn real(self) -> bool { false } }
impl VxNum for f64 { open spec fn whole(self) -> int { f2i(self) as int } open spec fn real(self) -> bool { true } }
pub uninterp spec fn f2i(a: f64) -> i64;
/// `x as usize`: the low 64 bits
pub open spec fn as_usize(x: int) -> int { x % 0x1_0000_0000_0000_0000 }
#[verifier::external_body]
pub fn vx_as_usize<T: VxNum>(x: T) -> (r: usize)
    ensures !x.real() ==> r == as_usize(x.whole()),
        !x.real() && 0 <= x.whole() <= u64::MAX ==> r == x.whole(),
        !x.real() && i64::MIN <= x.whole() < 0 ==> r == x.whole() + 0x1_0000_0000_0000_0000,
        // a float is cut towards zero; what is not a number becomes zero
        x.real() && 0 <= x.whole() < i64::MAX ==> r == x.whole(),
{ unimplemented!() }
/// what a float is as a natural number of 64 bits
pub uninterp spec fn cut_u64<T>(x: T) -> u64;
#[verifier::external_body]
pub fn vx_as_u64<T: VxNum>(x: T) -> (r: u64)
    ensures !x.real() ==> r == as_usize(x.whole()),
        x.real() ==> r == cut_u64(x),
        !x.real() && 0 <= x.whole() <= u64::MAX ==> r == x.whole(),
        !x.real() && i64::MIN <= x.whole() < 0 ==> r == x.whole() + 0x1_0000_0000_0000_0000,
{ unimplemented!() }
/// `x as u32`, `x as u8`: the low bits
/// what 32 bits keep of a whole number
#[verifier::opaque]
pub open spec fn low_32(n: int) -> int { n % 0x1_0000_0000 }
#[verifier::external_body]
pub fn vx_as_i32<T: VxNum>(x: T) -> (r: i32)
    ensures !x.real() ==> low_32(r as int) == low_32(x.whole()), !x.real() && i32::MIN <= x.whole() <= i32::MAX ==> r == x.whole(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_as_u32<T: VxNum>(x: T) -> (r: u32)
    ensures !x.real() ==> r == x.whole() % 0x1_0000_0000, !x.real() && 0 <= x.whole() <= u32::MAX ==> r == x.whole(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_as_u8<T: VxNum>(x: T) -> (r: u8)
    ensures !x.real() ==> r == x.whole() % 256, !x.real() && 0 <= x.whole() <= 255 ==> r == x.whole(),
{ unimplemented!() }
/// `x as char` of a byte
#[verifier::external_body]
pub fn vx_as_char(x: u8) -> (r: char) ensures r as u32 == x as u32 { unimplemented!() }
/// `x as i64`: the low 64 bits; of a float, the nearest whole number towards zero within range
#[verifier::external_body]
pub fn vx_as_i64<T: VxNum>(x: T) -> (r: i64)
    ensures r == mod64(x.whole()), i64::MIN <= x.whole() <= i64::MAX ==> r == x.whole(),
{ unimplemented!() }
pub uninterp spec fn i2f(x: i64) -> f64;
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fsub(a: f64, b: f64) -> f64;
pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
pub uninterp spec fn fdiv(a: f64, b: f64) -> f64;
pub uninterp spec fn fneg(a: f64) -> f64;
/// the comparison of two floats by ==
pub uninterp spec fn feq(a: f64, b: f64) -> bool;
#[verifier::external_body]
pub fn vx_feq(a: f64, b: f64) -> (r: bool) ensures r == feq(a, b) { unimplemented!() }
pub uninterp spec fn fcmp(a: f64, b: f64) -> Option<core::cmp::Ordering>;
pub open spec fn flt(a: f64, b: f64) -> bool { fcmp(a, b) == Some(core::cmp::Ordering::Less) }
#[verifier::external_body]
pub fn vx_flt(a: f64, b: f64) -> (r: bool) ensures r == flt(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fgt(a: f64, b: f64) -> (r: bool) ensures r == flt(b, a) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fle(a: f64, b: f64) -> (r: bool) ensures r == (flt(a, b) || feq(a, b)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fge(a: f64, b: f64) -> (r: bool) ensures r == (flt(b, a) || feq(a, b)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_as_f64<T: VxNum>(x: T) -> (r: f64) ensures !x.real() && i64::MIN <= x.whole() <= i64::MAX ==> r == i2f(x.whole() as i64) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fadd(a: f64, b: f64) -> (r: f64) ensures r == fadd(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fsub(a: f64, b: f64) -> (r: f64) ensures r == fsub(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmul(a: f64, b: f64) -> (r: f64) ensures r == fmul(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fdiv(a: f64, b: f64) -> (r: f64) ensures r == fdiv(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fneg(a: f64) -> (r: f64) ensures r == fneg(a) { unimplemented!() }

// ---------------------------------------------------------------- containers
pub mod axo {
    use super::*;
    verus! {
    /// std: a vector occupies at most isize::MAX bytes
    pub broadcast axiom fn ax_list_len(v: Vec<Expression>) ensures #[trigger] v@.len() <= isize::MAX;
    pub broadcast axiom fn ax_texts_len(v: Vec<String>) ensures #[trigger] v@.len() <= isize::MAX;
    pub broadcast axiom fn ax_strlen(s: String) ensures (s@.len() == 0) == (#[trigger] bl(s@) == 0);
    }
}
#[verifier::external_body]
pub fn vx_string_add<S: VxStr + ?Sized>(a: String, b: &S) -> (r: String)
    ensures r@ == a@ + b.txt(),
{ unimplemented!() }
pub open spec fn rep<T>(s: Seq<T>, k: nat) -> Seq<T>
    decreases k,
{
    if k == 0 { Seq::empty() } else { s + rep(s, (k - 1) as nat) }
}
pub open spec fn nn(n: i64) -> nat { if n < 0 { 0 } else { n as nat } }
pub trait VxRepeat { fn vx_repeat(&self, n: usize) -> String; }
impl VxRepeat for String {
    #[verifier::external_body]
    fn vx_repeat(&self, n: usize) -> (r: String) ensures r@ == rep(self@, n as nat) { unimplemented!() }
}
pub trait VxExtend<T> { fn vx_extend(&mut self, o: Vec<T>); }
impl<T> VxExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_extend(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
}
pub trait VxIntoIt<T> { fn vx_into_iter(self) -> VxIt<T>; }
impl<T> VxIntoIt<T> for VxIt<T> {
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIt<T>) ensures r@ == self@ { unimplemented!() }
}
impl<T> VxIntoIt<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIt<T>) ensures r@ == self@ { unimplemented!() }
}
impl<'a, T> VxIntoIt<&'a T> for &'a Vec<T> {
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIt<&'a T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_range(a: i64, b: i64) -> (r: VxIt<i64>)
    ensures r@.len() == (if b > a { b - a } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i,
{ unimplemented!() }

pub open spec fn truthy(e: Expression) -> bool {
    match e {
        Expression::Integer(i) => i != 0,
        Expression::Float(f) => !feq(f, 0.0),
        Expression::String(s) => s@.len() > 0,
        Expression::Bytes(b) => b@.len() > 0,
        Expression::List(l) => l@.len() > 0,
        Expression::Map(m) => m.ents().len() > 0,
        Expression::Boolean(b) => b,
        Expression::Lambda(..) | Expression::Macro(..) | Expression::Builtin(_) => true,
        _ => false,
    }
}
} // verus!
//@ end
