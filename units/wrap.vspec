//@ raw
pub mod textwrap {
    use super::*;
    verus! {
    /// textwrap: the text broken into lines of at most so many columns, in the best layout or the first
    pub uninterp spec fn filled(s: Seq<char>, n: nat) -> Seq<char>;
    pub uninterp spec fn first_fit(s: Seq<char>, n: nat) -> Seq<char>;
    /// the best layout is one whose costs, which textwrap adds up in 32 bits, are the least: up to a
    /// thousand for a line and the square of its empty columns, and 2500 for each column too many
    pub open spec fn light(l: int, n: int) -> bool { 0 <= l <= 300_000 && l * n <= 300_000_000 }
    pub mod wrap_algorithms {
        #[derive(Clone, Copy)]
        pub struct FirstFit;
    }
    pub struct Options { pub width: usize, pub first: bool }
    impl Options {
        pub fn new(n: usize) -> (r: Options) ensures r.width == n, !r.first { Options { width: n, first: false } }
        pub fn wrap_algorithm(self, a: wrap_algorithms::FirstFit) -> (r: Options) ensures r.width == self.width, r.first { Options { width: self.width, first: true } }
    }
    pub trait VxLayout { spec fn width(&self) -> usize; spec fn first(&self) -> bool; }
    impl VxLayout for usize { open spec fn width(&self) -> usize { *self } open spec fn first(&self) -> bool { false } }
    impl VxLayout for Options { open spec fn width(&self) -> usize { self.width } open spec fn first(&self) -> bool { self.first } }
    #[verifier::external_body]
    pub fn fill<S: VxStr + ?Sized, O: VxLayout>(s: &S, o: O) -> (r: String)
        requires o.first() || light(bl(s.txt()) as int, o.width() as int),
        ensures r@ == (if o.first() { first_fit(s.txt(), o.width() as nat) } else { filled(s.txt(), o.width() as nat) }),
    { unimplemented!() }
    }
}
verus! {
pub trait VxSizes: Sized { fn vx_min(self, o: Self) -> Self; fn vx_max(self, o: Self) -> Self; fn vx_saturating_mul(self, o: Self) -> Self; fn vx_saturating_sub(self, o: Self) -> Self; }
impl VxSizes for usize {
    fn vx_min(self, o: usize) -> (r: usize) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } }
    fn vx_max(self, o: usize) -> (r: usize) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } }
    #[verifier::external_body]
    fn vx_saturating_mul(self, o: usize) -> (r: usize) ensures r == (if self * o <= usize::MAX { self * o } else { usize::MAX as int }) { unimplemented!() }
    fn vx_saturating_sub(self, o: usize) -> (r: usize) ensures r == (if self >= o { self - o } else { 0 }) { if self >= o { self - o } else { 0 } }
}
pub open spec fn fewer(a: int, b: int) -> int { if a <= b { a } else { b } }
/// whether the best layout is looked for
pub open spec fn small(l: int, n: int) -> bool { l * (if n >= 1000 { n } else { 1000 }) <= 200_000_000 }
/// a text laid out in so many columns, of which it needs no more than it has bytes
pub open spec fn laid(s: Seq<char>, n: int) -> Seq<char> {
    let m = fewer(n, bl(s) as int);
    if small(bl(s) as int, m) { textwrap::filled(s, m as nat) } else { textwrap::first_fit(s, m as nat) }
}
pub proof fn lemma_small(l: int, n: int)
    requires 0 <= n <= l,
    ensures small(l, n) ==> textwrap::light(l, n),
{
    assert(l * 1000 <= l * (if n >= 1000 { n } else { 1000 })) by (nonlinear_arith) requires 0 <= l;
    assert(l * n <= l * (if n >= 1000 { n } else { 1000 })) by (nonlinear_arith) requires 0 <= l;
}
}
//@ end
