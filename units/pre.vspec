//@ raw
#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_camel_case_types, non_snake_case, unreachable_code, unused_assignments)]
use vstd::prelude::*;
verus! {
use vstd::seq_lib::*;

// ---------------------------------------------------------------- text
/// UTF-8 length of a character
pub open spec fn cl(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
/// byte length of a text
#[verifier::opaque]
pub open spec fn bl(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { bl(s.drop_last()) + cl(s.last()) }
}
pub proof fn lemma_bl_add(a: Seq<char>, b: Seq<char>)
    ensures bl(a + b) == bl(a) + bl(b),
    decreases b.len(),
{
    reveal(bl);
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_bl_add(a, b.drop_last());
    }
}
pub proof fn lemma_bl_pos(a: Seq<char>)
    ensures bl(a) >= a.len(),
    decreases a.len(),
{
    reveal(bl);
    if a.len() > 0 { lemma_bl_pos(a.drop_last()); }
}
pub proof fn lemma_bl_take(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures bl(s.take(i)) + bl(s.subrange(i, j)) == bl(s.take(j)),
        bl(s.take(j)) + bl(s.skip(j)) == bl(s),
        bl(s.subrange(i, j)) >= j - i,
{
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
    lemma_bl_add(s.take(i), s.subrange(i, j));
    assert(s =~= s.take(j) + s.skip(j));
    lemma_bl_add(s.take(j), s.skip(j));
    lemma_bl_pos(s.subrange(i, j));
}
pub proof fn lemma_bl_step(s: Seq<char>, n: int)
    requires 0 <= n < s.len(),
    ensures bl(s.take(n + 1)) == bl(s.take(n)) + cl(s[n]), bl(s.take(n + 1)) <= bl(s),
        s.skip(n).len() > 0, s.skip(n)[0] == s[n], s.skip(n).skip(1) =~= s.skip(n + 1),
{
    reveal(bl);
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    lemma_bl_take(s, n, n + 1);
}
pub proof fn lemma_bl_one(c: char)
    ensures bl(seq![c]) == cl(c),
{
    reveal(bl);
    assert(seq![c].drop_last() =~= Seq::<char>::empty());
    assert(bl(Seq::<char>::empty()) == 0);
    assert(bl(seq![c]) == bl(seq![c].drop_last()) + cl(seq![c].last()));
}
/// byte offset `off` is the start of character `k` of `s`
pub open spec fn at(s: Seq<char>, off: nat, k: int) -> bool {
    0 <= k <= s.len() && bl(s.take(k)) == off
}
pub open spec fn boundary(s: Seq<char>, off: nat) -> bool { exists|k: int| at(s, off, k) }
pub open spec fn cix(s: Seq<char>, off: nat) -> int { choose|k: int| at(s, off, k) }
pub proof fn lemma_at_unique(s: Seq<char>, off: nat, k: int)
    requires at(s, off, k),
    ensures boundary(s, off), cix(s, off) == k,
{
    let j = cix(s, off);
    assert(at(s, off, j));
    if j < k { lemma_bl_take(s, j, k); }
    if k < j { lemma_bl_take(s, k, j); }
}
pub proof fn lemma_at_ends(s: Seq<char>)
    ensures at(s, 0, 0), at(s, bl(s), s.len() as int),
{
    reveal(bl);
    assert(s.take(0) =~= Seq::<char>::empty());
    assert(s.take(s.len() as int) =~= s);
}
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && forall|i: int| 0 <= i < p.len() ==> s[i] == #[trigger] p[i] }

/// anything that dereferences to text
pub trait VxStr { spec fn txt(&self) -> Seq<char>; }
impl VxStr for str { open spec fn txt(&self) -> Seq<char> { self@ } }
impl VxStr for String { open spec fn txt(&self) -> Seq<char> { self@ } }
impl<T: VxStr + ?Sized> VxStr for &T { open spec fn txt(&self) -> Seq<char> { (**self).txt() } }
/// what == compares
pub trait VxVal { type W; spec fn val(&self) -> Self::W; }
impl VxVal for str { type W = Seq<char>; open spec fn val(&self) -> Seq<char> { self@ } }
impl VxVal for String { type W = Seq<char>; open spec fn val(&self) -> Seq<char> { self@ } }
impl VxVal for bool { type W = bool; open spec fn val(&self) -> bool { *self } }
impl VxVal for char { type W = char; open spec fn val(&self) -> char { *self } }
impl VxVal for usize { type W = usize; open spec fn val(&self) -> usize { *self } }
impl VxVal for i64 { type W = i64; open spec fn val(&self) -> i64 { *self } }
impl<T: VxVal + ?Sized> VxVal for &T { type W = T::W; open spec fn val(&self) -> T::W { (**self).val() } }

/// std: a text occupies at most isize::MAX bytes
pub mod sk {
    use super::*;
    verus! {
    pub broadcast proof fn lemma_skip_skip<T>(s: Seq<T>, a: int, b: int)
        requires 0 <= a, 0 <= b, a + b <= s.len(),
        ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
    { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
    }
}
pub mod ax {
    use super::*;
    verus! {
    pub broadcast axiom fn ax_str_len(s: &str) ensures #[trigger] bl(s@) <= isize::MAX;
    pub broadcast axiom fn ax_string_len(s: &String) ensures #[trigger] bl(s@) <= isize::MAX;
    }
}

pub trait VxLen { fn vx_len(&self) -> usize; }
impl VxLen for str {
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) ensures r == bl(self@) { unimplemented!() }
}
impl VxLen for String {
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) ensures r == bl(self@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_str_len<S: VxStr + ?Sized>(s: &S) -> (r: usize)
    ensures r == bl(s.txt()),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_str_from<'a, S: VxStr + ?Sized>(s: &'a S, a: usize) -> (r: &'a str)
    requires boundary(s.txt(), a as nat),
    ensures r@ == s.txt().skip(cix(s.txt(), a as nat)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_str_to<'a, S: VxStr + ?Sized>(s: &'a S, b: usize) -> (r: &'a str)
    requires boundary(s.txt(), b as nat),
    ensures r@ == s.txt().take(cix(s.txt(), b as nat)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_str_slice<'a, S: VxStr + ?Sized>(s: &'a S, a: usize, b: usize) -> (r: &'a str)
    requires a <= b, boundary(s.txt(), a as nat), boundary(s.txt(), b as nat),
    ensures r@ == s.txt().subrange(cix(s.txt(), a as nat), cix(s.txt(), b as nat)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_str_eq<A: VxStr + ?Sized, B: VxStr + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == (a.txt() == b.txt()),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_same<A: VxVal + ?Sized, B: VxVal<W = A::W> + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == (a.val() == b.val()),
{ unimplemented!() }

// ---------------------------------------------------------------- iterators
/// what an iterator still has to yield
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIt<T> { p: core::marker::PhantomData<T> }
impl<T> VxIt<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_first(self) -> (r: Option<T>)
        ensures r == (if self@.len() == 0 { None } else { Some(self@[0]) }),
    { unimplemented!() }
}
pub trait VxChars { fn vx_chars(&self) -> VxIt<char>; }
impl VxChars for str {
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxIt<char>) ensures r@ == self@ { unimplemented!() }
}
impl VxChars for String {
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxIt<char>) ensures r@ == self@ { unimplemented!() }
}
pub trait VxCharExt { fn vx_len_utf8(self) -> usize; }
impl VxCharExt for char {
    #[verifier::external_body]
    fn vx_len_utf8(self) -> (r: usize) ensures r == cl(self) { unimplemented!() }
}
/// nothing is known of this: what can be derived from it was contradictory before
pub uninterp spec fn vx_probe(k: int) -> bool;
/// reaching a call of this is an obligation
#[verifier::external_body]
pub fn vx_unreachable() -> (r: !)
    requires false,
{ unimplemented!() }
pub fn vx_assert(b: bool)
    requires b,
{ }
} // verus!
//@ end
