//@ raw
verus! {
/// arithmetic: of floats not specified, of integers exact, and only where it fits (a debug
/// build stops there, a release build wraps around)
pub trait VxArith: Sized {
    spec fn may(self, o: Self, op: char) -> bool;
    spec fn is(self, o: Self, op: char, r: Self) -> bool;
}
impl VxArith for f64 {
    open spec fn may(self, o: f64, op: char) -> bool { true }
    open spec fn is(self, o: f64, op: char, r: f64) -> bool {
        r == (if op == '+' { fadd(self, o) } else if op == '-' { fsub(self, o) } else if op == '*' { fmul(self, o) } else if op == '/' { fdiv(self, o) } else { frem(self, o) })
    }
}
pub open spec fn iop(a: int, b: int, op: char) -> int {
    if op == '+' { a + b } else if op == '-' { a - b } else if op == '*' { a * b } else if op == '/' { tdiv(a, b) } else { trem(a, b) }
}
impl VxArith for i64 {
    open spec fn may(self, o: i64, op: char) -> bool {
        if op == '/' || op == '%' { o != 0 && !(self == i64::MIN && o == -1) } else { fits(iop(self as int, o as int, op)) }
    }
    open spec fn is(self, o: i64, op: char, r: i64) -> bool { r == iop(self as int, o as int, op) }
}
impl VxArith for u64 {
    open spec fn may(self, o: u64, op: char) -> bool {
        if op == '/' || op == '%' { o != 0 } else { 0 <= iop(self as int, o as int, op) <= u64::MAX }
    }
    open spec fn is(self, o: u64, op: char, r: u64) -> bool { r == iop(self as int, o as int, op) }
}
pub uninterp spec fn frem(a: f64, b: f64) -> f64;
#[verifier::external_body]
pub fn vx_gadd<T: VxArith>(a: T, b: T) -> (r: T) requires a.may(b, '+'), ensures a.is(b, '+', r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gsub<T: VxArith>(a: T, b: T) -> (r: T) requires a.may(b, '-'), ensures a.is(b, '-', r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gmul<T: VxArith>(a: T, b: T) -> (r: T) requires a.may(b, '*'), ensures a.is(b, '*', r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gdiv<T: VxArith>(a: T, b: T) -> (r: T) requires a.may(b, '/'), ensures a.is(b, '/', r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_grem<T: VxArith>(a: T, b: T) -> (r: T) requires a.may(b, '%'), ensures a.is(b, '%', r) { unimplemented!() }
impl VxArith for u8 {
    open spec fn may(self, o: u8, op: char) -> bool {
        if op == '/' || op == '%' { o != 0 } else { 0 <= iop(self as int, o as int, op) <= u8::MAX }
    }
    open spec fn is(self, o: u8, op: char, r: u8) -> bool { r == iop(self as int, o as int, op) }
}
impl VxArith for u32 {
    open spec fn may(self, o: u32, op: char) -> bool {
        if op == '/' || op == '%' { o != 0 } else { 0 <= iop(self as int, o as int, op) <= u32::MAX }
    }
    open spec fn is(self, o: u32, op: char, r: u32) -> bool { r == iop(self as int, o as int, op) }
}
impl VxArith for usize {
    open spec fn may(self, o: usize, op: char) -> bool {
        if op == '/' || op == '%' { o != 0 } else { 0 <= iop(self as int, o as int, op) <= usize::MAX }
    }
    open spec fn is(self, o: usize, op: char, r: usize) -> bool { r == iop(self as int, o as int, op) }
}
pub trait VxTry: Sized { spec fn tval(self) -> int; }
impl VxTry for i64 { open spec fn tval(self) -> int { self as int } }
impl VxTry for usize { open spec fn tval(self) -> int { self as int } }
#[verifier::external_body]
pub fn vx_u32_try_from<T: VxTry>(x: T) -> (r: Result<u32, ()>) ensures r == (if 0 <= x.tval() <= u32::MAX { Ok::<u32, ()>(x.tval() as u32) } else { Err(()) }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_usize_try_from<T: VxTry>(x: T) -> (r: Result<usize, ()>) ensures r == (if 0 <= x.tval() <= usize::MAX { Ok::<usize, ()>(x.tval() as usize) } else { Err(()) }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_u8_try_from<T: VxTry>(x: T) -> (r: Result<u8, ()>) ensures r == (if 0 <= x.tval() <= 255 { Ok::<u8, ()>(x.tval() as u8) } else { Err(()) }) { unimplemented!() }
/// the remainder that is not negative
pub trait VxEuclid: Sized {
    spec fn has_rem(self, o: Self) -> bool;
    spec fn rem_is(self, o: Self, r: Self) -> bool;
    fn vx_rem_euclid(self, o: Self) -> (r: Self) requires self.has_rem(o), ensures self.rem_is(o, r);
}
impl VxEuclid for i64 {
    open spec fn has_rem(self, o: i64) -> bool { o > 0 }
    open spec fn rem_is(self, o: i64, r: i64) -> bool { r == self as int % (o as int) }
    #[verifier::external_body]
    fn vx_rem_euclid(self, o: i64) -> (r: i64) { unimplemented!() }
}
} // verus!
//@ end
