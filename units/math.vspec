//@ include lib.vspec
//@ include arith.vspec
//@ default vclone ctx arith
//@ raw
pub mod pw {
use super::*;
verus! {
/// 2 to the power k
pub open spec fn two_to(k: nat) -> int decreases k { if k == 0 { 1 } else { 2 * two_to((k - 1) as nat) } }
pub proof fn lemma_pow2(k: nat)
    requires k < 64,
    ensures 1 <= two_to(k) <= 0x8000_0000_0000_0000,
    decreases k,
{
    assert(two_to(63) == 0x8000_0000_0000_0000) by (compute);
    lemma_mono(k, 63);
}
pub proof fn lemma_mono(a: nat, b: nat)
    requires a <= b,
    ensures 1 <= two_to(a) <= two_to(b),
    decreases b,
{
    if a < b { lemma_mono(a, (b - 1) as nat); } else if a > 0 { lemma_mono((a - 1) as nat, (a - 1) as nat); }
}
/// a shift to the right does not grow
pub broadcast proof fn lemma_shr(x: int, k: nat)
    ensures k < 64 && fits(x) ==> fits(#[trigger] (x / two_to(k))),
        k < 64 && 0 <= x <= u64::MAX ==> 0 <= x / two_to(k) <= u64::MAX,
{
    if k < 64 {
        lemma_pow2(k);
        let d = two_to(k);
        assert(x >= 0 ==> 0 <= x / d <= x) by (nonlinear_arith) requires d >= 1;
        assert(x < 0 ==> x <= x / d < 0) by (nonlinear_arith) requires d >= 1;
    }
}
} // verus!
}
pub mod u {
use super::*;
use super::pw::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axo::ax_list_len, pw::lemma_shr};
type R = Result<Expression, Error>;
/// b to the power k
pub open spec fn ipow(b: int, k: nat) -> int decreases k { if k == 0 { 1 } else { b * ipow(b, (k - 1) as nat) } }
/// n!
pub open spec fn fact(n: nat) -> int decreases n { if n == 0 { 1 } else { n * fact((n - 1) as nat) } }
/// the bits of x read as a number without a sign, and back
pub open spec fn unsigned(x: int) -> int { x % 0x1_0000_0000_0000_0000 }
/// the integer, if it fits
pub open spec fn int64(x: int) -> Option<i64> { super::exact(x) }
/// an exact result, or an error
pub open spec fn refused(r: R, x: Option<i64>) -> bool { match x { Some(n) => r == R::Ok(Expression::Integer(n)), None => r is Err } }
pub open spec fn shift(k: i64, x: int) -> Option<i64> { if 0 <= k < 64 { Some(mod64(x) as i64) } else { None } }
pub uninterp spec fn ffloor(a: f64) -> f64;
pub uninterp spec fn fceil(a: f64) -> f64;
pub uninterp spec fn fround(a: f64) -> f64;
pub uninterp spec fn ftrunc(a: f64) -> f64;
pub uninterp spec fn fabs(a: f64) -> f64;
pub uninterp spec fn fpow(a: f64, b: f64) -> f64;
impl VxInto<Expression> for f64 {
    open spec fn conv(self) -> Expression { Expression::Float(self) }
    fn vx_into(self) -> (r: Expression) { Expression::Float(self) }
}
pub const VX_F64_PI: f64 = 3.14;
#[verifier::external_body]
pub fn vx_f64_round(x: f64) -> (r: f64) ensures r == fround(x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64_exp(x: f64) -> (r: f64) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64_ln(x: f64) -> (r: f64) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64_sqrt(x: f64) -> (r: f64) { unimplemented!() }
/// shifts stop (debug) or take the amount modulo 64 (release) outside 0..63
#[verifier::external_body]
pub fn vx_gshl<T: VxNum + VxBits, K: VxNum>(a: T, k: K) -> (r: T)
    requires 0 <= k.whole() < 64, ensures a.shl(k.whole() as nat, r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gshr<T: VxNum + VxBits, K: VxNum>(a: T, k: K) -> (r: T)
    requires 0 <= k.whole() < 64, ensures r.whole() == a.whole() / two_to(k.whole() as nat) { unimplemented!() }
pub trait VxFloat: Sized {
    fn vx_floor(self) -> f64;
    fn vx_ceil(self) -> f64;
    fn vx_round(self) -> f64;
    fn vx_trunc(self) -> f64;
    fn vx_powf(self, o: f64) -> f64;
}
impl VxFloat for f64 {
    #[verifier::external_body]
    fn vx_floor(self) -> (r: f64) ensures r == ffloor(self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_ceil(self) -> (r: f64) ensures r == fceil(self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_round(self) -> (r: f64) ensures r == fround(self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trunc(self) -> (r: f64) ensures r == ftrunc(self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_powf(self, o: f64) -> (r: f64) ensures r == fpow(self, o) { unimplemented!() }
}
pub trait VxAbs: Sized {
    spec fn has_abs(self) -> bool;
    spec fn abs_is(self, r: Self) -> bool;
    fn vx_abs(self) -> (r: Self) requires self.has_abs(), ensures self.abs_is(r);
}
impl VxAbs for f64 {
    open spec fn has_abs(self) -> bool { true }
    open spec fn abs_is(self, r: f64) -> bool { r == fabs(self) }
    #[verifier::external_body]
    fn vx_abs(self) -> (r: f64) { unimplemented!() }
}
impl VxAbs for i64 {
    open spec fn has_abs(self) -> bool { self != i64::MIN }
    open spec fn abs_is(self, r: i64) -> bool { r == (if self < 0 { -self } else { self as int }) }
    #[verifier::external_body]
    fn vx_abs(self) -> (r: i64) { unimplemented!() }
}
pub trait VxBits: Sized {
    spec fn shl(self, k: nat, r: Self) -> bool;
    fn vx_checked_shl(self, k: u32) -> Option<Self>;
    fn vx_checked_shr(self, k: u32) -> Option<Self>;
    fn vx_wrapping_shl(self, k: u32) -> Self;
    fn vx_wrapping_shr(self, k: u32) -> Self;
}
impl VxBits for i64 {
    open spec fn shl(self, k: nat, r: i64) -> bool { r == mod64(self * two_to(k)) }
    #[verifier::external_body]
    fn vx_checked_shl(self, k: u32) -> (r: Option<i64>) ensures r == (if k < 64 { Some(mod64(self * two_to(k as nat)) as i64) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    fn vx_checked_shr(self, k: u32) -> (r: Option<i64>) ensures r == (if k < 64 { Some((self as int / two_to(k as nat)) as i64) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    fn vx_wrapping_shl(self, k: u32) -> (r: i64) ensures r == mod64(self * two_to((k % 64) as nat)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_wrapping_shr(self, k: u32) -> (r: i64) ensures r == self as int / two_to((k % 64) as nat) { unimplemented!() }
}
impl VxBits for u64 {
    open spec fn shl(self, k: nat, r: u64) -> bool { r == unsigned(self * two_to(k)) }
    #[verifier::external_body]
    fn vx_checked_shl(self, k: u32) -> (r: Option<u64>) ensures r == (if k < 64 { Some(unsigned(self * two_to(k as nat)) as u64) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    fn vx_checked_shr(self, k: u32) -> (r: Option<u64>) ensures r == (if k < 64 { Some((self as int / two_to(k as nat)) as u64) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    fn vx_wrapping_shl(self, k: u32) -> (r: u64) ensures r == unsigned(self * two_to((k % 64) as nat)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_wrapping_shr(self, k: u32) -> (r: u64) ensures r == self as int / two_to((k % 64) as nat) { unimplemented!() }
}
pub trait VxPow: Sized { fn vx_checked_pow(self, k: u32) -> Option<Self>; fn vx_checked_abs(self) -> Option<Self>; }
impl VxPow for i64 {
    #[verifier::external_body]
    fn vx_checked_pow(self, k: u32) -> (r: Option<i64>) ensures r == int64(ipow(self as int, k as nat)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_checked_abs(self) -> (r: Option<i64>) ensures r == int64(if self < 0 { -self } else { self as int }) { unimplemented!() }
}
/// one operand that must be an integer
pub open spec fn int1(a: Seq<Expression>, e: Environment) -> Result<i64, Option<Error>> {
    match ev(a[0], e) { Err(x) => Err(Some(x)), Ok(Expression::Integer(i)) => Ok(i), Ok(_) => Err(None) }
}
/// two operands that must be integers, the first refused before the second is evaluated
pub open spec fn int2(a: Seq<Expression>, e: Environment) -> Result<(i64, i64), Option<Error>> {
    match int1(a, e) {
        Err(x) => Err(x),
        Ok(i) => match ev(a[1], af(a[0], e)) { Err(x) => Err(Some(x)), Ok(Expression::Integer(k)) => Ok((i, k)), Ok(_) => Err(None) },
    }
}
pub open spec fn bad<T>(r: R, x: Result<T, Option<Error>>) -> bool { match x { Err(Some(e)) => r == R::Err(e), Err(None) => r is Err, Ok(_) => false } }
/// the running sum (or product) after one more number
pub type Acc = (i64, f64);
pub open spec fn step(mul: bool, a: Acc, x: Expression) -> Option<Acc> {
    match x {
        Expression::Integer(i) => match int64(if mul { a.0 * i } else { a.0 + i }) { Some(n) => Some((n, a.1)), None => None },
        Expression::Float(f) => Some((a.0, if mul { fmul(a.1, f) } else { fadd(a.1, f) })),
        _ => None,
    }
}
pub type RA = Result<Acc, Option<Error>>;
/// ... after the numbers of a list, each evaluated once, in order
pub open spec fn over_list(mul: bool, a: Acc, s: Seq<Expression>, e: Environment) -> (RA, Environment)
    decreases s.len(),
{
    if s.len() == 0 { (Ok(a), e) } else {
        match evals(s[0], e) {
            (Err(x), e1) => (Err(Some(x)), e1),
            (Ok(v), e1) => match step(mul, a, v) { Some(b) => over_list(mul, b, s.skip(1), e1), None => (Err(None), e1) },
        }
    }
}
/// ... after the operands, each a number or a list of numbers
pub open spec fn over(mul: bool, a: Acc, s: Seq<Expression>, e: Environment) -> (RA, Environment)
    decreases s.len(),
{
    if s.len() == 0 { (Ok(a), e) } else {
        match evals(s[0], e) {
            (Err(x), e1) => (Err(Some(x)), e1),
            (Ok(Expression::List(l)), e1) => match over_list(mul, a, l@, e1) {
                (Ok(b), e2) => over(mul, b, s.skip(1), e2),
                (Err(x), e2) => (Err(x), e2),
            },
            (Ok(v), e1) => match step(mul, a, v) { Some(b) => over(mul, b, s.skip(1), e1), None => (Err(None), e1) },
        }
    }
}
pub open spec fn derefs(s: Seq<&Expression>) -> Seq<Expression> { Seq::new(s.len(), |i: int| *s[i]) }
/// once a factorial is out of reach, so is every later one
pub proof fn lemma_fact(a: nat, b: nat)
    requires a <= b,
    ensures 1 <= fact(a) <= fact(b),
    decreases b,
{
    if a < b {
        lemma_fact(a, (b - 1) as nat);
        assert(b * fact((b - 1) as nat) >= fact((b - 1) as nat)) by (nonlinear_arith) requires b >= 1, fact((b - 1) as nat) >= 1;
    } else if a > 0 {
        lemma_fact((a - 1) as nat, (a - 1) as nat);
        assert(a * fact((a - 1) as nat) >= 1) by (nonlinear_arith) requires a >= 1, fact((a - 1) as nat) >= 1;
    }
}
} // verus!
verus! {
//@ end
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ file src/binary/init/math_module.rs
//@ fn closure/l-rsh name=m_lrsh
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match int2($0@, *old($1)) { Ok((a, k)) => refused(r, shift(k, unsigned(a as int) / two_to(k as nat))), x => bad(r, x) },
//@ fn closure/a-rsh name=m_arsh
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match int2($0@, *old($1)) { Ok((a, k)) => refused(r, shift(k, a as int / two_to(k as nat))), x => bad(r, x) },
//@ fn closure/rsh name=m_rsh
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match int2($0@, *old($1)) { Ok((a, k)) => refused(r, shift(k, a as int / two_to(k as nat))), x => bad(r, x) },
//@ fn closure/lsh name=m_lsh
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match int2($0@, *old($1)) { Ok((a, k)) => refused(r, shift(k, a * two_to(k as nat))), x => bad(r, x) },
//@ fn closure/sum name=m_sum loops=2
    ensures match over(false, (0, 0.0), $0@, *old($1)) {
            (Ok((i, f)), e) => r == R::Ok(if feq(f, 0.0) { Expression::Integer(i) } else { Expression::Float(fadd(i2f(i), f)) }),
            (x, e) => bad(r, x),
        },
//@ before_loop 0
    proof { assert(derefs(vx_it1@) =~= $0@); }
    let ghost goal = over(false, (int_sum, float_sum), $0@, *$1);
//@ loop 0
    invariant over(false, (int_sum, float_sum), derefs(vx_it1@), *$1) == goal,
        match goal { (Ok(_), _) => true, (Err(_), _) => true },
    ensures goal == (RA::Ok((int_sum, float_sum)), *$1),
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { assert(derefs(vx_it1@).skip(1) =~= derefs(vx_it1@.skip(1))); assert(derefs(vx_it1@)[0] == *vx_it1@[0]); } else { assert(derefs(vx_it1@).len() == 0); } }
//@ before_loop 1
    let ghost rest = derefs(vx_it1@);
//@ loop 1
    invariant (match over_list(false, (int_sum, float_sum), vx_it2@, *$1) {
            (Ok(b), e2) => over(false, b, rest, e2),
            (Err(x), e2) => (Err(x), e2),
        }) == goal,
    ensures over(false, (int_sum, float_sum), rest, *$1) == goal,
    decreases vx_it2@.len(),
//@ fn closure/product name=m_product loops=2
    ensures match over(true, (1, 1.0), $0@, *old($1)) {
            (Ok((i, f)), e) => r == R::Ok(if feq(f, 1.0) { Expression::Integer(i) } else { Expression::Float(fmul(i2f(i), f)) }),
            (x, e) => bad(r, x),
        },
//@ before_loop 0
    proof { assert(derefs(vx_it1@) =~= $0@); }
    let ghost goal = over(true, (int_product, float_product), $0@, *$1);
//@ loop 0
    invariant over(true, (int_product, float_product), derefs(vx_it1@), *$1) == goal,
        match goal { (Ok(_), _) => true, (Err(_), _) => true },
    ensures goal == (RA::Ok((int_product, float_product)), *$1),
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { assert(derefs(vx_it1@).skip(1) =~= derefs(vx_it1@.skip(1))); assert(derefs(vx_it1@)[0] == *vx_it1@[0]); } else { assert(derefs(vx_it1@).len() == 0); } }
//@ before_loop 1
    let ghost rest = derefs(vx_it1@);
//@ loop 1
    invariant (match over_list(true, (int_product, float_product), vx_it2@, *$1) {
            (Ok(b), e2) => over(true, b, rest, e2),
            (Err(x), e2) => (Err(x), e2),
        }) == goal,
    ensures over(true, (int_product, float_product), rest, *$1) == goal,
    decreases vx_it2@.len(),
//@ fn closure/fact name=m_fact loops=1
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(Expression::Integer(i)) => refused(r, if i < 0 { None } else { int64(fact(i as nat)) }),
            Ok(Expression::Float(_)) => true,
            Ok(_) => r is Err,
        },
//@ loop 0
    invariant 0 <= i, vx_it1@.len() <= i,
        result == fact((i - vx_it1@.len()) as nat), forall|j: int| 0 <= j < vx_it1@.len() ==> #[trigger] vx_it1@[j] == i - vx_it1@.len() + 1 + j,
    ensures result == fact(i as nat),
    decreases vx_it1@.len(),
//@ loop_start 0
    proof {
        if vx_it1@.len() > 0 {
            let n = vx_it1@[0] as nat;
            assert(fact(n) == n * fact((n - 1) as nat));
            assert(n * fact((n - 1) as nat) == fact((n - 1) as nat) * n) by (nonlinear_arith);
            lemma_fact(n, i as nat);
        }
    }
//@ fn closure/abs name=m_abs
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(Expression::Integer(i)) => refused(r, int64(if i < 0 { -i } else { i as int })),
            Ok(Expression::Float(f)) => r == R::Ok(Expression::Float(fabs(f))),
            Ok(_) => r is Err,
        },
//@ fn closure/floor name=m_floor
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(Expression::Integer(i)) => r == R::Ok(Expression::Integer(i)),
            Ok(Expression::Float(f)) => r == R::Ok(Expression::Float(ffloor(f))),
            Ok(_) => r is Err,
        },
//@ fn closure/ceil name=m_ceil
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(Expression::Integer(i)) => r == R::Ok(Expression::Integer(i)),
            Ok(Expression::Float(f)) => r == R::Ok(Expression::Float(fceil(f))),
            Ok(_) => r is Err,
        },
//@ fn closure/round name=m_round
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(Expression::Integer(i)) => r == R::Ok(Expression::Integer(i)),
            Ok(Expression::Float(f)) => r == R::Ok(Expression::Float(fround(f))),
            Ok(_) => r is Err,
        },
//@ fn closure/trunc name=m_trunc
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(Expression::Integer(i)) => r == R::Ok(Expression::Integer(i)),
            Ok(Expression::Float(f)) => r == R::Ok(Expression::Float(ftrunc(f))),
            Ok(_) => r is Err,
        },
//@ fn closure/isodd name=m_isodd
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(Expression::Integer(i)) => r == R::Ok(Expression::Boolean(i as int % 2 == 1)),
            Ok(Expression::Float(f)) => r == R::Ok(Expression::Boolean(f2i(f) as int % 2 == 1)),
            Ok(_) => r is Err,
        },
//@ fn closure/iseven name=m_iseven
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(Expression::Integer(i)) => r == R::Ok(Expression::Boolean(i as int % 2 == 0)),
            Ok(Expression::Float(f)) => r == R::Ok(Expression::Boolean(f2i(f) as int % 2 == 0)),
            Ok(_) => r is Err,
        },
//@ fn closure/pow name=m_pow
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match (ev($0@[0], *old($1)), ev($0@[1], af($0@[0], *old($1)))) {
            (Err(x), _) => r == R::Err(x),
            (_, Err(x)) => r == R::Err(x),
            (Ok(Expression::Integer(b)), Ok(Expression::Integer(k))) => if 0 <= k <= u32::MAX { refused(r, int64(ipow(b as int, k as nat))) } else { r is Err || (k >= 0 && refused(r, int64(ipow(b as int, k as nat)))) },
            (Ok(Expression::Integer(b)), Ok(Expression::Float(k))) => r == R::Ok(Expression::Float(fpow(i2f(b), k))),
            (Ok(Expression::Float(b)), Ok(Expression::Integer(k))) => r == R::Ok(Expression::Float(fpow(b, i2f(k)))),
            (Ok(Expression::Float(b)), Ok(Expression::Float(k))) => r == R::Ok(Expression::Float(fpow(b, k))),
            _ => r is Err,
        },
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
