//@ include lib.vspec
//@ include arith.vspec
//@ include argc.vspec
//@ default vclone ctx arith strslice ren=starts_with,push_str,is_whitespace,is_alphabetic,is_alphanumeric,is_numeric,is_lowercase,is_uppercase,is_ascii_lowercase,is_ascii_uppercase,is_ascii_alphabetic
//@ raw
pub mod cls {
use super::*;
verus! {
// ---------------------------------------------------------------- std's classes and mappings of characters
pub uninterp spec fn is_space(c: char) -> bool;
pub uninterp spec fn is_alpha(c: char) -> bool;
pub uninterp spec fn is_alnum(c: char) -> bool;
pub uninterp spec fn is_num(c: char) -> bool;
pub uninterp spec fn is_low(c: char) -> bool;
pub uninterp spec fn is_up(c: char) -> bool;
pub open spec fn low_letter(c: char) -> bool { 97 <= c as u32 <= 122 }
pub open spec fn up_letter(c: char) -> bool { 65 <= c as u32 <= 90 }
pub trait VxClass { spec fn ch(&self) -> char;
    fn vx_is_whitespace(&self) -> (r: bool) ensures r == is_space(self.ch());
    fn vx_is_alphabetic(&self) -> (r: bool) ensures r == is_alpha(self.ch());
    fn vx_is_alphanumeric(&self) -> (r: bool) ensures r == is_alnum(self.ch());
    fn vx_is_numeric(&self) -> (r: bool) ensures r == is_num(self.ch());
    fn vx_is_lowercase(&self) -> (r: bool) ensures r == is_low(self.ch());
    fn vx_is_uppercase(&self) -> (r: bool) ensures r == is_up(self.ch());
    fn vx_is_ascii_lowercase(&self) -> (r: bool) ensures r == low_letter(self.ch());
    fn vx_is_ascii_uppercase(&self) -> (r: bool) ensures r == up_letter(self.ch());
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) ensures r == (low_letter(self.ch()) || up_letter(self.ch()));
}
impl VxClass for char {
    open spec fn ch(&self) -> char { *self }
    #[verifier::external_body]
    fn vx_is_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_numeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_lowercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_uppercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_ascii_lowercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_ascii_uppercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
}
/// the characters c becomes, at least one
pub uninterp spec fn ups(c: char) -> Seq<char>;
pub uninterp spec fn lows(c: char) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub trait VxCase: Sized {
    type O;
    spec fn up_is(&self, r: Self::O) -> bool;
    spec fn low_is(&self, r: Self::O) -> bool;
    fn vx_to_uppercase(&self) -> (r: Self::O) ensures self.up_is(r);
    fn vx_to_lowercase(&self) -> (r: Self::O) ensures self.low_is(r);
}
impl VxCase for char {
    type O = VxIt<char>;
    open spec fn up_is(&self, r: VxIt<char>) -> bool { r@ == ups(*self) && r@.len() > 0 }
    open spec fn low_is(&self, r: VxIt<char>) -> bool { r@ == lows(*self) && r@.len() > 0 }
    #[verifier::external_body]
    fn vx_to_uppercase(&self) -> (r: VxIt<char>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_lowercase(&self) -> (r: VxIt<char>) { unimplemented!() }
}
impl VxCase for String {
    type O = String;
    open spec fn up_is(&self, r: String) -> bool { r@ == upper(self@) }
    open spec fn low_is(&self, r: String) -> bool { r@ == lower(self@) }
    #[verifier::external_body]
    fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
}
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trimmed_start(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trimmed_end(s: Seq<char>) -> Seq<char>;
/// s with every occurrence of a, from the left, replaced by b
pub uninterp spec fn replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn words_of(s: Seq<char>) -> Seq<Seq<char>>;
/// the pieces of s between occurrences of a
pub uninterp spec fn pieces(s: Seq<char>, a: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.skip(s.len() - p.len()) =~= p }
pub open spec fn holds(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) =~= p }
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub trait VxText {
    spec fn t(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.t());
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == trimmed_start(self.t());
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == trimmed_end(self.t());
    fn vx_replace<A: VxStr + ?Sized>(&self, a: &A, b: &A) -> (r: String) ensures r@ == replaced(self.t(), a.txt(), b.txt());
    fn vx_starts_with<A: VxStr + ?Sized>(&self, a: &A) -> (r: bool) ensures r == starts(self.t(), a.txt());
    fn vx_ends_with<A: VxStr + ?Sized>(&self, a: &A) -> (r: bool) ensures r == ends(self.t(), a.txt());
    fn vx_contains<A: VxStr + ?Sized>(&self, a: &A) -> (r: bool) ensures r == holds(self.t(), a.txt());
    fn vx_lines(&self) -> (r: VxIt<&str>) ensures texts(r@) == lines_of(self.t());
    fn vx_split_whitespace(&self) -> (r: VxIt<&str>) ensures texts(r@) == words_of(self.t());
    fn vx_split<A: VxStr + ?Sized>(&self, a: &A) -> (r: VxIt<&str>) ensures texts(r@) == pieces(self.t(), a.txt());
    fn vx_is_char_boundary(&self, k: usize) -> (r: bool) ensures r == boundary(self.t(), k as nat);
}
impl VxText for String {
    open spec fn t(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_replace<A: VxStr + ?Sized>(&self, a: &A, b: &A) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with<A: VxStr + ?Sized>(&self, a: &A) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_ends_with<A: VxStr + ?Sized>(&self, a: &A) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_contains<A: VxStr + ?Sized>(&self, a: &A) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split_whitespace(&self) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split<A: VxStr + ?Sized>(&self, a: &A) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_char_boundary(&self, k: usize) -> (r: bool) { unimplemented!() }
}
impl VxToString for char {
    open spec fn shown(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
pub trait VxPushStr { fn vx_push_str<A: VxStr + ?Sized>(&mut self, a: &A); }
impl VxPushStr for String {
    #[verifier::external_body]
    fn vx_push_str<A: VxStr + ?Sized>(&mut self, a: &A) ensures final(self)@ == old(self)@ + a.txt() { unimplemented!() }
}
} // verus!
}
pub mod u {
use super::*;
use super::cls::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axo::ax_list_len, ax::ax_string_len};
type R = Result<Expression, Error>;
/// a text, written as a string or as a name
pub open spec fn text_of(x: Expression) -> Option<Seq<char>> {
    match x { Expression::String(s) | Expression::Symbol(s) => Some(s@), _ => None }
}
pub open spec fn is_text(x: Expression, s: Seq<char>) -> bool { x is String && x->String_0@ =~= s }
pub open spec fn is_texts(x: Expression, t: Seq<Seq<char>>) -> bool {
    x is List && x->List_0@.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> is_text(#[trigger] x->List_0@[i], t[i])
}
/// what is answered for something that is not a text: nothing, or an error
pub open spec fn no_text(r: R, lax: bool) -> bool { if lax { r == R::Ok(Expression::None) } else { r is Err } }
/// a function of one text
pub open spec fn of_text(r: R, a: Seq<Expression>, e: Environment, lax: bool, want: spec_fn(Seq<char>, Expression) -> bool) -> bool {
    if a.len() != 1 { r is Err } else {
        match ev(a[0], e) {
            Err(x) => r == R::Err(x),
            Ok(v) => match text_of(v) { Some(s) => r is Ok && want(s, r->Ok_0), None => no_text(r, lax) },
        }
    }
}
/// a text and what another operand is displayed as
pub open spec fn of_text2(r: R, a: Seq<Expression>, e: Environment, want: spec_fn(Seq<char>, Seq<char>, Expression) -> bool) -> bool {
    if a.len() != 2 { r is Err } else {
        match evals(a[0], e) {
            (Err(x), _) => r == R::Err(x),
            (Ok(v), e1) => match ev(a[1], e1) {
                Err(x) => r == R::Err(x),
                Ok(w) => match text_of(v) { Some(s) => r is Ok && want(s, display(w), r->Ok_0), None => no_text(r, true) },
            },
        }
    }
}
/// a letter moved k places in its alphabet
#[vx_def]
pub open spec fn moved(c: char, k: int) -> int {
    if low_letter(c) { 97 + (c as u32 - 97 + k) % 26 } else if up_letter(c) { 65 + (c as u32 - 65 + k) % 26 } else { c as u32 as int }
}
pub proof fn lemma_moved(c: char, k: int)
    ensures
        low_letter(c) ==> moved(c, k) == 97 + (c as u32 - 97 + k % 26) % 26,
        up_letter(c) ==> moved(c, k) == 65 + (c as u32 - 65 + k % 26) % 26,
        !low_letter(c) && !up_letter(c) ==> moved(c, k) == c as u32,
{
    def_moved(c, k);
    vstd::arithmetic::div_mod::lemma_add_mod_noop_right(c as u32 - 97, k, 26);
    vstd::arithmetic::div_mod::lemma_add_mod_noop_right(c as u32 - 65, k, 26);
}
#[vx_def]
pub open spec fn ciphered(s: Seq<char>, t: Seq<char>, k: int) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]) as u32 == moved(s[i], k)
}
pub proof fn lemma_ciphered(s: Seq<char>, t: Seq<char>, k: int)
    ensures ciphered(Seq::empty(), Seq::empty(), k),
        t.len() < s.len() && ciphered(s.take(t.len() as int), t, k) ==> forall|c: char| c as u32 == moved(s[t.len() as int], k) ==> ciphered(s.take(t.len() as int + 1), #[trigger] t.push(c), k),
{
    def_ciphered(Seq::empty(), Seq::empty(), k);
    if t.len() < s.len() && ciphered(s.take(t.len() as int), t, k) {
        assert forall|c: char| c as u32 == moved(s[t.len() as int], k) implies ciphered(s.take(t.len() as int + 1), #[trigger] t.push(c), k) by {
            let n = t.len() as int;
            def_ciphered(s.take(n), t, k);
            def_ciphered(s.take(n + 1), t.push(c), k);
            assert forall|i: int| 0 <= i < n + 1 implies (#[trigger] t.push(c)[i]) as u32 == moved(s.take(n + 1)[i], k) by {
                if i < n { assert(t[i] as u32 == moved(s.take(n)[i], k)); }
            }
        }
    }
}
pub open spec fn iv(x: i64) -> int { x as int }
pub open spec fn larger(a: int, b: int) -> int { if a > b { a } else { b } }
/// the number of characters of the longest line, `cur` characters into the first
pub open spec fn widest(s: Seq<char>, cur: int) -> int
    decreases s.len(),
{
    if s.len() == 0 { cur } else if s[0] == '\n' { larger(cur, widest(s.skip(1), 0)) } else { widest(s.skip(1), cur + 1) }
}
pub proof fn lemma_widest(s: Seq<char>, cur: int)
    requires cur >= 0,
    ensures widest(s, cur) >= 0,
    decreases s.len(),
{
    if s.len() > 0 { if s[0] == '\n' { lemma_widest(s.skip(1), 0); } else { lemma_widest(s.skip(1), cur + 1); } }
}
/// every word begins in upper case and goes on in lower case
pub open spec fn titled(s: Seq<char>, begin: bool) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s } else { seq![if begin { ups(s[0])[0] } else { lows(s[0])[0] }] + titled(s.skip(1), is_space(s[0])) }
}
/// the elements as displayed, with sep between them

pub open spec fn joined_from(l: Seq<Expression>, sep: Seq<char>, first: bool) -> Seq<char>
    decreases l.len(),
{
    if l.len() == 0 { Seq::empty() } else { (if first { Seq::empty() } else { sep }) + display(l[0]) + joined_from(l.skip(1), sep, false) }
}
/// how many elements have been visited
pub open spec fn gn(s: Seq<(usize, &Expression)>, l: Seq<Expression>) -> int { l.len() - s.len() }
pub open spec fn numbered(s: Seq<(usize, &Expression)>, l: Seq<Expression>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == gn(s, l) + i && *s[i].1 == l[gn(s, l) + i]
}
pub open spec fn single(s: Seq<char>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| seq![s[i]]) }
pub enum Cls { Space, Alpha, Alnum, Num, Low, Up }
pub open spec fn of_cls(k: Cls, c: char) -> bool {
    match k { Cls::Space => is_space(c), Cls::Alpha => is_alpha(c), Cls::Alnum => is_alnum(c), Cls::Num => is_num(c), Cls::Low => is_low(c), Cls::Up => is_up(c) }
}
/// every character is of the class
pub open spec fn each(k: Cls, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> of_cls(k, #[trigger] s[i]) }
pub proof fn lemma_each(k: Cls, s: Seq<char>)
    ensures s.len() > 0 ==> each(k, s) == (of_cls(k, s[0]) && each(k, s.skip(1))), s.len() == 0 ==> each(k, s),
{
    if s.len() > 0 {
        let t = s.skip(1);
        assert forall|i: int| of_cls(k, s[0]) && each(k, t) && 0 <= i < s.len() implies of_cls(k, #[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } }
        assert forall|i: int| each(k, s) && 0 <= i < t.len() implies of_cls(k, #[trigger] t[i]) by { assert(s[i + 1] == t[i]); }
    }
}
/// the texts left, when n of the texts t are done
pub open spec fn left_of(s: Seq<&str>, t: Seq<Seq<char>>, n: int) -> bool {
    s.len() + n == t.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == t[n + i]
}
pub open spec fn done(l: Seq<Expression>, t: Seq<Seq<char>>) -> bool {
    l.len() <= t.len() && forall|i: int| 0 <= i < l.len() ==> is_text(#[trigger] l[i], t[i])
}
} // verus!
verus! {
//@ end
