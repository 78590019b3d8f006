//@ raw
verus! {
// ---------------------------------------------------------------- what lies outside the program
/// The standard output, the level of logging, and everything else evaluation can touch besides the environment.
#[verifier::external_body]
pub struct VxWorld { p: u8 }
/// the world after this text was written to the standard output
pub uninterp spec fn printed(w: VxWorld, s: Seq<char>) -> VxWorld;
/// the level of logging, and the world after it was set
pub uninterp spec fn level(w: VxWorld) -> i64;
pub uninterp spec fn leveled(w: VxWorld, n: i64) -> VxWorld;
pub mod axw {
    use super::*;
    verus! {
    /// only the text counts, not the pieces it is written in; and writing nothing does nothing
    pub broadcast axiom fn ax_more(w: VxWorld, a: Seq<char>, b: Seq<char>) ensures #[trigger] printed(printed(w, a), b) == printed(w, a + b);
    pub broadcast axiom fn ax_nothing(w: VxWorld, a: Seq<char>) ensures a.len() == 0 ==> #[trigger] printed(w, a) == w;
    pub broadcast axiom fn ax_level(w: VxWorld, a: Seq<char>) ensures level(#[trigger] printed(w, a)) == level(w);
    pub broadcast axiom fn ax_leveled(w: VxWorld, n: i64) ensures level(#[trigger] leveled(w, n)) == n;
    }
}
#[verifier::external_body]
pub fn vx_print(s: String, vx_w: &mut VxWorld) ensures *final(vx_w) == printed(*old(vx_w), s@) { unimplemented!() }
/// the lock around the level; nothing panics while it is held
#[verifier::external_body]
pub struct VxLock { p: u8 }
#[verifier::external_body]
pub const LOG_LEVEL: VxLock = VxLock { p: 0 };
impl VxLock {
    #[verifier::external_body]
    pub fn read(&self, vx_w: &mut VxWorld) -> (r: Result<Box<i64>, u8>) ensures r is Ok, *r->Ok_0 == level(*old(vx_w)), *final(vx_w) == *old(vx_w) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_store(&self, n: i64, vx_w: &mut VxWorld) ensures *final(vx_w) == leveled(*old(vx_w), n) { unimplemented!() }
}
// ---------------------------------------------------------------- evaluation, as the library sees it
/// What evaluating an expression does: its result, and the environment and the world afterwards.
pub uninterp spec fn evals(x: Expression, e: Environment, w: VxWorld) -> (Result<Expression, Error>, Environment, VxWorld);
impl Expression {
    #[verifier::external_body]
    pub fn eval(&self, env: &mut Environment, vx_w: &mut VxWorld) -> (r: Result<Expression, Error>)
        ensures (r, *final(env), *final(vx_w)) == evals(*self, *old(env), *old(vx_w)),
    { unimplemented!() }
}
// ---------------------------------------------------------------- texts
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
/// a value as it is shown to programmers
pub uninterp spec fn debugged(x: Expression) -> Seq<char>;
impl Expression {
    #[verifier::external_body]
    pub fn vx_to_debug(&self) -> (r: String) ensures r@ == debugged(*self) { unimplemented!() }
}
/// the pieces of s between occurrences of a
pub uninterp spec fn pieces(s: Seq<char>, a: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.skip(s.len() - p.len()) =~= p }
/// what is looked for in a text: a character or a text
pub trait VxPat { spec fn pat(&self) -> Seq<char>; }
impl VxPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl<A: VxStr + ?Sized> VxPat for &A { open spec fn pat(&self) -> Seq<char> { self.txt() } }
pub trait VxText {
    fn vx_ends_with<A: VxPat>(&self, a: A) -> bool;
    fn vx_split<A: VxPat>(&self, a: A) -> VxIt<&str>;
    fn vx_lines(&self) -> VxIt<&str>;
}
impl VxText for String {
    #[verifier::external_body]
    fn vx_ends_with<A: VxPat>(&self, a: A) -> (r: bool) ensures r == ends(self@, a.pat()) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split<A: VxPat>(&self, a: A) -> (r: VxIt<&str>) ensures texts(r@) == pieces(self@, a.pat()) { unimplemented!() }
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: VxIt<&str>) ensures texts(r@) == lines_of(self@), r@.len() <= bl(self@) <= isize::MAX { unimplemented!() }
}
}
//@ end
