//@ include convert.vspec
//@ raw
verus! {
// ---------------------------------------------------------------- detached-str
#[verifier::external_body]
pub struct Str { p: Box<str> }
impl View for Str { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxStr for Str { open spec fn txt(&self) -> Seq<char> { self@ } }
impl VxVal for Str { type W = Seq<char>; open spec fn val(&self) -> Seq<char> { self@ } }
pub mod axt {
    use super::*;
    verus! {
    pub broadcast axiom fn ax_mkstrbox(s: Seq<char>) ensures bl(s) <= isize::MAX ==> (#[trigger] mkstrbox(s))@ == s;
    pub broadcast axiom fn ax_strbox_back(s: Str) ensures mkstrbox(#[trigger] s@) == s;
    pub broadcast axiom fn ax_strbox_len(s: &Str) ensures #[trigger] bl(s@) <= isize::MAX;
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct StrSlice { pub start: usize, pub end: usize }
pub open spec fn sl(a: int, b: int) -> StrSlice { StrSlice { start: a as usize, end: b as usize } }
impl StrSlice {
    #[verifier::external_body]
    pub fn vx_join(self, other: StrSlice) -> (r: StrSlice)
        requires self.end == other.start,
        ensures r.start == self.start, r.end == other.end,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_str<'a, S: VxStr + ?Sized>(self, text: &'a S) -> (r: &'a str)
        requires self.start <= self.end, boundary(text.txt(), self.start as nat), boundary(text.txt(), self.end as nat),
        ensures r@ == text.txt().subrange(cix(text.txt(), self.start as nat), cix(text.txt(), self.end as nat)),
    { unimplemented!() }
    pub fn start(&self) -> (r: usize) ensures r == self.start { self.start }
    pub fn end(&self) -> (r: usize) ensures r == self.end { self.end }
}
pub uninterp spec fn mkstrbox(s: Seq<char>) -> Str;
impl<'a> VxInto<Str> for &'a str {
    open spec fn conv(self) -> Str { mkstrbox(self@) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Str) { unimplemented!() }
}
impl VxChars for Str {
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxIt<char>) ensures r@ == self@ { unimplemented!() }
}
impl Str {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == bl(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_range(&self, a: usize, b: usize) -> (r: StrSlice)
        requires a <= b <= bl(self@),
        ensures r.start == a, r.end == b,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_from(&self, a: usize) -> (r: StrSlice)
        requires a <= bl(self@),
        ensures r.start == a, r.end == bl(self@),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_ptr_eq<T>(a: &T, b: &T) -> (r: bool)
    ensures a == b ==> r,
{ unimplemented!() }
/// nom's error wrapper
pub mod nom {
    use vstd::prelude::*;
    verus! {
    pub enum Err<E> { Incomplete(usize), Error(E), Failure(E) }
    pub mod error {
        pub enum ErrorKind { Eof, Many0 }
    }
    }
}
pub type IResult<I, O, E> = core::result::Result<(I, O), nom::Err<E>>;

} // verus!
//@ end
