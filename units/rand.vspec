//@ include lib.vspec
//@ include argc.vspec
//@ default vclone ctx vindex
//@ raw
pub mod rand {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct ThreadRng { p: u8 }
    #[verifier::external_body]
    pub fn thread_rng() -> ThreadRng { unimplemented!() }
    pub trait Within: Sized { spec fn num(self) -> int; }
    impl Within for i64 { open spec fn num(self) -> int { self as int } }
    impl Within for usize { open spec fn num(self) -> int { self as int } }
    /// rand::distributions::Uniform: its constructor panics unless there is something in between
    pub struct Uniform<T> { pub lo: T, pub hi: T }
    impl<T: Within> Uniform<T> {
        #[verifier::external_body]
        pub fn new(l: T, h: T) -> (r: Self) requires l.num() < h.num(), ensures r.lo == l, r.hi == h { unimplemented!() }
    }
    impl ThreadRng {
        #[verifier::external_body]
        pub fn sample<T: Within>(&mut self, u: Uniform<T>) -> (r: T) ensures u.lo.num() <= r.num() < u.hi.num() { unimplemented!() }
    }
    pub trait Shuffle { fn shuffle(&mut self, r: &mut ThreadRng); }
    impl<T> Shuffle for Vec<T> {
        #[verifier::external_body]
        fn shuffle(&mut self, r: &mut ThreadRng) ensures final(self)@.to_multiset() == old(self)@.to_multiset() { unimplemented!() }
    }
    }
}
verus! {
/// indexing
pub trait VxAt<T> { spec fn elems(&self) -> Seq<T>; }
impl<T> VxAt<T> for Vec<T> { open spec fn elems(&self) -> Seq<T> { self@ } }
#[verifier::external_body]
pub fn vx_at<T, S: VxAt<T> + ?Sized>(s: &S, i: usize) -> (r: &T)
    requires i < s.elems().len(),
    ensures *r == s.elems()[i as int],
{ unimplemented!() }
}
pub mod u {
use super::*;
use super::rand::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axo::ax_list_len};
type R = Result<Expression, Error>;
pub open spec fn of_list(r: R, a: Seq<Expression>, e: Environment, want: spec_fn(Seq<Expression>, R) -> bool) -> bool {
    if a.len() != 1 { r is Err } else { match ev(a[0], e) { Err(x) => r == R::Err(x), Ok(Expression::List(l)) => want(l@, r), Ok(_) => r is Err } }
}
//@ end
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ file src/binary/init/rand_module.rs
//@ fn int
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match evals($0@[0], *old($1)) {
            (Err(x), _) => r == R::Err(x),
            (Ok(a), e1) => match (a, ev($0@[1], e1)) {
                (_, Err(x)) => r == R::Err(x),
                (Expression::Integer(l), Ok(Expression::Integer(h))) => if l < h { r is Ok && r->Ok_0 is Integer && l <= r->Ok_0->Integer_0 < h } else { r is Err },
                _ => r is Err,
            },
        },
//@ fn choose
    ensures of_list(r, $0@, *old($1), |l: Seq<Expression>, q: R| if l.len() == 0 { q is Err } else { q is Ok && l.contains(q->Ok_0) }),
//@ fn shuffle
    ensures of_list(r, $0@, *old($1), |l: Seq<Expression>, q: R| q is Ok && q->Ok_0 is List && q->Ok_0->List_0@.to_multiset() == l.to_multiset()),
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
