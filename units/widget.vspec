//@ include lib.vspec
//@ include arith.vspec
//@ include argc.vspec
//@ include wrap.vspec
//@ default vclone ctx exprfrom fmtshow fmtcat arith strplus vindex usizerange revealstr shortstr=6 ren=pop,push
//@ raw
verus! {
// ---------------------------------------------------------------- texts, as std has them
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
/// s with every occurrence of a, from the left, replaced by b
pub uninterp spec fn replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn strings(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
/// the characters other than c
pub open spec fn without(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { s } else { (if s[0] == c { Seq::empty() } else { seq![s[0]] }) + without(s.skip(1), c) } }
pub open spec fn breaks(s: Seq<char>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { (if s.last() == '\n' { 1int } else { 0 }) + breaks(s.drop_last()) } }
pub mod axs {
    use super::*;
    verus! {
    pub broadcast axiom fn ax_removed(s: Seq<char>, a: Seq<char>, b: Seq<char>) ensures a.len() == 1 && b.len() == 0 ==> #[trigger] replaced(s, a, b) == without(s, a[0]);
    /// lines are ended by line breaks; nothing follows the last one
    pub broadcast axiom fn ax_lines(s: Seq<char>) ensures (#[trigger] lines_of(s)).len() == breaks(s) + (if s.len() == 0 || s.last() == '\n' { 0int } else { 1 });
    /// whole numbers below 2^53 are exact, and halves of them round up
    pub broadcast axiom fn ax_half(x: i64) ensures 0 <= x <= 0x20_0000_0000_0000 ==> f2i(fround(#[trigger] fdiv(i2f(x), 2.0))) == (x + 1) / 2;
    /// beyond, they are off by less than a thousand
    pub broadcast axiom fn ax_about_half(x: i64) ensures 0 <= x ==> x / 2 - 1000 <= f2i(fround(#[trigger] fdiv(i2f(x), 2.0))) <= x / 2 + 1000 && f2i(fround(fdiv(i2f(x), 2.0))) >= 0;
    }
}
impl VxNum for u16 { open spec fn whole(self) -> int { self as int } open spec fn real(self) -> bool { false } }
pub uninterp spec fn fround(a: f64) -> f64;
pub trait VxFl { fn vx_round(self) -> f64; }
impl VxFl for f64 {
    #[verifier::external_body]
    fn vx_round(self) -> (r: f64) ensures r == fround(self) { unimplemented!() }
}
pub trait VxPat { spec fn pat(&self) -> Seq<char>; }
impl VxPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl<A: VxStr + ?Sized> VxPat for &A { open spec fn pat(&self) -> Seq<char> { self.txt() } }
pub trait VxText {
    spec fn t(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.t());
    fn vx_replace<A: VxPat, B: VxStr + ?Sized>(&self, a: A, b: &B) -> (r: String) ensures r@ == replaced(self.t(), a.pat(), b.txt());
    fn vx_lines(&self) -> (r: VxIt<&str>) ensures texts(r@) == lines_of(self.t());
    fn vx_padded(&self, n: usize) -> (r: String)
        requires n <= 65535,
        ensures r@ == (if self.t().len() >= n { self.t() } else { self.t() + run(' ', n - self.t().len()) });
}
impl VxText for String {
    open spec fn t(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_replace<A: VxPat, B: VxStr + ?Sized>(&self, a: A, b: &B) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_padded(&self, n: usize) -> (r: String) { unimplemented!() }
}
impl VxText for str {
    open spec fn t(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_replace<A: VxPat, B: VxStr + ?Sized>(&self, a: A, b: &B) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_padded(&self, n: usize) -> (r: String) { unimplemented!() }
}
impl VxRepeat for str {
    #[verifier::external_body]
    fn vx_repeat(&self, n: usize) -> (r: String) ensures r@ == rep(self@, n as nat) { unimplemented!() }
}
impl VxPush<char> for String {
    #[verifier::external_body]
    fn vx_push(&mut self, x: char) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
}
pub trait VxPushStr { fn vx_push_str<S: VxStr + ?Sized>(&mut self, x: &S); }
impl VxPushStr for String {
    #[verifier::external_body]
    fn vx_push_str<S: VxStr + ?Sized>(&mut self, x: &S) ensures final(self)@ == old(self)@ + x.txt() { unimplemented!() }
}
pub trait VxPop { fn vx_pop(&mut self) -> Option<char>; }
impl VxPop for String {
    #[verifier::external_body]
    fn vx_pop(&mut self) -> (r: Option<char>)
        ensures old(self)@.len() == 0 ==> final(self)@ == old(self)@, old(self)@.len() > 0 ==> final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
}
pub trait VxPlus<T>: Sized { spec fn can(&self, o: T) -> bool; spec fn sum(&self, o: T, r: Self) -> bool; }
impl VxPlus<usize> for usize { open spec fn can(&self, o: usize) -> bool { self + o <= usize::MAX } open spec fn sum(&self, o: usize, r: usize) -> bool { r == self + o } }
impl<A: VxStr + ?Sized> VxPlus<&A> for String { open spec fn can(&self, o: &A) -> bool { true } open spec fn sum(&self, o: &A, r: String) -> bool { r@ == self@ + o.txt() } }
#[verifier::external_body]
pub fn vx_plus<L: VxPlus<T>, T>(a: &mut L, b: T) requires old(a).can(b), ensures old(a).sum(b, *final(a)) { unimplemented!() }
pub trait VxAt<T> { spec fn elems(&self) -> Seq<T>; }
impl<T> VxAt<T> for [T] { open spec fn elems(&self) -> Seq<T> { self@ } }
impl<T> VxAt<T> for Vec<T> { open spec fn elems(&self) -> Seq<T> { self@ } }
impl<T, S: VxAt<T> + ?Sized> VxAt<T> for &S { open spec fn elems(&self) -> Seq<T> { (**self).elems() } }
#[verifier::external_body]
pub fn vx_at<T, S: VxAt<T> + ?Sized>(s: &S, i: usize) -> (r: &T)
    requires i < s.elems().len(),
    ensures *r == s.elems()[i as int],
{ unimplemented!() }
pub open spec fn with_between(l: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else { with_between(l.drop_last(), sep) + sep + l.last() } }
pub trait VxJoin { fn vx_join<S: VxStr + ?Sized>(&self, sep: &S) -> String; }
impl VxJoin for Vec<String> {
    #[verifier::external_body]
    fn vx_join<S: VxStr + ?Sized>(&self, sep: &S) -> (r: String) ensures r@ == with_between(strings(self@), sep.txt()) { unimplemented!() }
}
/// n times the character c
pub open spec fn run(c: char, n: int) -> Seq<char> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| c) }
}
verus! {
#[verifier::external_body]
pub fn vx_urange(a: usize, b: usize) -> (r: VxIt<usize>)
    ensures r@.len() == (if b > a { b - a } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i,
{ unimplemented!() }
impl VxToString for usize {
    uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
}
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axo::ax_list_len, axs::ax_removed, axs::ax_lines, axs::ax_half, axs::ax_about_half};
type R = Result<Expression, Error>;
pub open spec fn is_text(x: Expression, s: Seq<char>) -> bool { x is String && x->String_0@ =~= s }
// ---------------------------------------------------------------- a widget
/// the text, and spaces until it has n characters
pub open spec fn filled_up(s: Seq<char>, n: int) -> Seq<char> { if s.len() >= n { s } else { s + run(' ', n - s.len()) } }
pub open spec fn bar(n: int) -> Seq<char> { run('─', n) }
pub open spec fn top(title: Seq<char>, w: int) -> Seq<char> {
    let d = w - 2 - title.len();
    seq!['┌'] + bar(d / 2) + title + bar((d + 1) / 2) + seq!['┐']
}
pub open spec fn bottom(w: int) -> Seq<char> { seq!['└'] + bar(w - 2) + seq!['┘'] }
/// k empty rows, each after a line break
pub open spec fn blank(w: int, k: int) -> Seq<char>
    decreases k,
{ if k <= 0 { Seq::empty() } else { seq!['\n'] + run(' ', w) + blank(w, k - 1) } }
/// k rows of w characters, the first filled up to column i: a space, then the text to the end of its line or of the row
pub open spec fn rows(t: Seq<char>, w: int, i: int, k: int) -> Seq<char>
    decreases t.len(),
{
    if t.len() == 0 { run(' ', w - i) + blank(w, k - 1) }
    else {
        let j = if i == 0 { 1 } else { i };
        let s = if i == 0 { seq![' '] } else { Seq::empty() };
        let next = if k <= 1 { Seq::empty() } else { seq!['\n'] + rows(t.skip(1), w, 0, k - 1) };
        if t[0] == '\n' { s + run(' ', w - j) + next }
        else if j >= w - 1 { s + seq![t[0]] + next }
        else { s + seq![t[0]] + rows(t.skip(1), w, j + 1, k) }
    }
}
pub open spec fn widget(title: Seq<char>, t: Seq<char>, w: int, h: int) -> Seq<char> {
    top(title, w) + seq!['\n'] + rows(t, w, 0, h - 2) + seq!['\n'] + bottom(w)
}
/// h lines of w characters each
pub open spec fn grid(s: Seq<char>, w: int, h: int) -> bool
    decreases h,
{
    if h <= 1 { h == 1 && s.len() == w && !s.contains('\n') }
    else { s.len() > w && !s.take(w).contains('\n') && s[w] == '\n' && grid(s.skip(w + 1), w, h - 1) }
}
//@ end
//@ raw
pub proof fn lemma_run(c: char, n: nat)
    ensures rep(seq![c], n) == run(c, n as int),
    decreases n,
{
    if n > 0 { lemma_run(c, (n - 1) as nat); assert(seq![c] + run(c, n - 1) =~= run(c, n as int)); }
    else { assert(run(c, 0) =~= Seq::empty()); }
}
pub proof fn lemma_breaks(a: Seq<char>, b: Seq<char>)
    ensures breaks(a + b) == breaks(a) + breaks(b), breaks(a) >= 0,
    decreases a.len() + b.len(),
{
    if b.len() > 0 {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_breaks(a, b.drop_last());
    } else {
        assert(a + b =~= a);
        if a.len() > 0 { lemma_breaks(a.drop_last(), Seq::empty()); assert(a.drop_last() + Seq::<char>::empty() =~= a.drop_last()); }
    }
}
pub proof fn lemma_no_breaks(a: Seq<char>)
    requires !a.contains('\n'),
    ensures breaks(a) == 0,
    decreases a.len(),
{
    if a.len() > 0 {
        assert(a.contains(a.last()));
        assert forall|i: int| 0 <= i < a.drop_last().len() implies a.drop_last()[i] != '\n' by { assert(a.contains(a[i])); }
        lemma_no_breaks(a.drop_last());
    }
}
/// a text and n more of a character
pub proof fn lemma_padded(a: Seq<char>, c: char, n: int)
    requires n >= 0,
    ensures breaks(a + run(c, n)) == breaks(a) + (if c == '\n' { n } else { 0 }), n > 0 ==> (a + run(c, n)).last() == c, breaks(a) >= 0,
    decreases n,
{
    lemma_breaks(a, run(c, n));
    if n == 0 { assert(run(c, n) =~= Seq::empty()); assert(a + run(c, n) =~= a); }
    else {
        assert(run(c, n).drop_last() =~= run(c, n - 1));
        lemma_padded(a, c, n - 1);
        lemma_breaks(a, run(c, n - 1));
        assert(run(c, n).last() == c);
    }
}
pub proof fn lemma_push(a: Seq<char>, c: char)
    ensures breaks(a.push(c)) == breaks(a) + (if c == '\n' { 1int } else { 0 }), breaks(a) >= 0,
{ assert(a.push(c).drop_last() =~= a); lemma_breaks(a, Seq::empty()); }
pub proof fn lemma_top(title: Seq<char>, w: int)
    requires title.len() <= w - 2,
    ensures top(title, w).len() == w, !title.contains('\n') ==> !top(title, w).contains('\n'),
{
    let d = w - 2 - title.len();
    assert(d / 2 + (d + 1) / 2 == d);
    if !title.contains('\n') {
        let a = d / 2;
        assert forall|i: int| 0 <= i < w implies top(title, w)[i] != '\n' by {
            if 1 + a <= i < 1 + a + title.len() { assert(title.contains(title[i - 1 - a])); assert(top(title, w)[i] == title[i - 1 - a]); }
        }
    }
}
pub proof fn lemma_blank(w: int, k: int)
    requires k >= 0, w > 0,
    ensures grid(run(' ', w) + blank(w, k), w, k + 1),
    decreases k,
{
    let s = run(' ', w) + blank(w, k);
    if k == 0 { assert(s =~= run(' ', w)); }
    else {
        lemma_blank(w, k - 1);
        assert(s.take(w) =~= run(' ', w));
        assert(s.skip(w + 1) =~= run(' ', w) + blank(w, k - 1));
    }
}
/// the part p of the first row, and the rest
pub proof fn lemma_rows(p: Seq<char>, t: Seq<char>, w: int, k: int)
    requires k >= 1, w >= 2, p.len() < w, !p.contains('\n'),
    ensures grid(p + rows(t, w, p.len() as int, k), w, k),
    decreases t.len(),
{
    let i = p.len() as int;
    let s = p + rows(t, w, i, k);
    if t.len() == 0 {
        if k == 1 { assert(s =~= p + run(' ', w - i)); no_break_cat(p, run(' ', w - i)); }
        else {
            no_break_cat(p, run(' ', w - i));
            assert(s.take(w) =~= p + run(' ', w - i));
            lemma_blank(w, k - 2);
            assert(s.skip(w + 1) =~= run(' ', w) + blank(w, k - 2));
        }
    } else {
        let j = if i == 0 { 1 } else { i };
        let q = if i == 0 { seq![' '] } else { p };
        assert(!q.contains('\n')) by { if i == 0 { assert(q[0] == ' '); } }
        if t[0] == '\n' || j >= w - 1 {
            let f = if t[0] == '\n' { q + run(' ', w - j) } else { q.push(t[0]) };
            if t[0] == '\n' { no_break_cat(q, run(' ', w - j)); } else { no_break_push(q, t[0]); }
            if k == 1 { assert(s =~= f); }
            else {
                assert(s =~= f + (seq!['\n'] + rows(t.skip(1), w, 0, k - 1)));
                assert(s.take(w) =~= f);
                lemma_rows(Seq::empty(), t.skip(1), w, k - 1);
                assert(s.skip(w + 1) =~= Seq::<char>::empty() + rows(t.skip(1), w, 0, k - 1));
            }
        } else {
            no_break_push(q, t[0]);
            lemma_rows(q.push(t[0]), t.skip(1), w, k);
            assert(s =~= q.push(t[0]) + rows(t.skip(1), w, j + 1, k));
        }
    }
}
pub proof fn no_break_cat(a: Seq<char>, b: Seq<char>)
    requires !a.contains('\n'), !b.contains('\n'),
    ensures !(a + b).contains('\n'),
{ assert forall|i: int| 0 <= i < (a + b).len() implies (a + b)[i] != '\n' by { if i < a.len() { assert(a.contains(a[i])); } else { assert(b.contains(b[i - a.len()])); } } }
pub proof fn no_break_push(a: Seq<char>, c: char)
    requires !a.contains('\n'), c != '\n',
    ensures !a.push(c).contains('\n'),
{ assert forall|i: int| 0 <= i < a.push(c).len() implies a.push(c)[i] != '\n' by { if i < a.len() { assert(a.contains(a[i])); } } }
pub proof fn lemma_grid_cat(a: Seq<char>, b: Seq<char>, w: int, h: int)
    requires grid(a, w, h), b.len() == w, !b.contains('\n'), w > 0, h >= 1,
    ensures grid(a + seq!['\n'] + b, w, h + 1),
    decreases h,
{
    let s = a + seq!['\n'] + b;
    if h == 1 { assert(s.take(w) =~= a); assert(s.skip(w + 1) =~= b); assert(s[w] == '\n'); assert(grid(b, w, 1)); assert(grid(s, w, 2)); }
    else {
        assert(s.take(w) =~= a.take(w));
        lemma_grid_cat(a.skip(w + 1), b, w, h - 1);
        assert(s.skip(w + 1) =~= a.skip(w + 1) + seq!['\n'] + b);
    }
}
/// every widget is h lines of w characters
pub proof fn lemma_widget(title: Seq<char>, t: Seq<char>, w: int, h: int)
    requires title.len() <= w - 2, !title.contains('\n'), w >= 5, h >= 3,
    ensures grid(widget(title, t, w, h), w, h),
{
    lemma_top(title, w);
    lemma_rows(Seq::empty(), t, w, h - 2);
    assert(Seq::<char>::empty() + rows(t, w, 0, h - 2) =~= rows(t, w, 0, h - 2));
    let m = top(title, w) + seq!['\n'] + rows(t, w, 0, h - 2);
    assert(m.take(w) =~= top(title, w));
    assert(m.skip(w + 1) =~= rows(t, w, 0, h - 2));
    assert(grid(m, w, h - 1));
    assert forall|i: int| 0 <= i < bottom(w).len() implies bottom(w)[i] != '\n' by {}
    lemma_grid_cat(m, bottom(w), w, h - 1);
    assert(widget(title, t, w, h) =~= m + seq!['\n'] + bottom(w));
}
/// the rows are filled up to column i of the one after `lines` line breaks; t is the text left, and `all` what it comes to
pub open spec fn going(r: Seq<char>, t: Seq<char>, w: int, i: int, h: int, lines: int, all: Seq<char>) -> bool {
    breaks(r) == lines && r + rows(t, w, i, h - 1 - lines) == all
}
/// only empty rows are missing
pub open spec fn whole(r: Seq<char>, w: int, h: int, all: Seq<char>) -> bool {
    0 <= breaks(r) <= h - 2 && r + blank(w, h - 2 - breaks(r)) == all
}
pub open spec fn ended(r: Seq<char>) -> bool { r.len() > 0 && r.last() != '\n' }
/// one step through the text
pub proof fn step(r: Seq<char>, t: Seq<char>, w: int, i: int, h: int, lines: int, all: Seq<char>, ok: bool)
    requires 0 <= i < w, w >= 2, 1 <= lines <= h - 2, ok ==> going(r, t, w, i, h, lines, all),
    ensures
        t.len() == 0 ==> ended(r + run(' ', w - i)) && (ok ==> whole(r + run(' ', w - i), w, h, all)),
        t.len() > 0 ==> ({
            let j = if i == 0 { 1 } else { i };
            let p = if i == 0 { r.push(' ') } else { r };
            let f = if t[0] == '\n' { p + run(' ', w - j) } else { p.push(t[0]) };
            let full = t[0] == '\n' || j == w - 1;
            &&& ok && !full ==> going(f, t.skip(1), w, j + 1, h, lines, all)
            &&& ok && full && lines + 1 < h - 1 ==> going(f.push('\n'), t.skip(1), w, 0, h, lines + 1, all)
            &&& ok && full && lines + 1 == h - 1 ==> whole(f + run(' ', 0), w, h, all)
            &&& full ==> ended(f + run(' ', 0))
        }),
{
    let k = h - 1 - lines;
    if t.len() == 0 {
        lemma_padded(r, ' ', w - i);
        assert(r + rows(t, w, i, k) =~= r + run(' ', w - i) + blank(w, k - 1));
    } else {
        let j = if i == 0 { 1 } else { i };
        let p = if i == 0 { r.push(' ') } else { r };
        let f = if t[0] == '\n' { p + run(' ', w - j) } else { p.push(t[0]) };
        let full = t[0] == '\n' || j == w - 1;
        lemma_push(r, ' '); lemma_push(p, t[0]); lemma_padded(p, ' ', w - j); lemma_push(f, '\n');
        assert(f + run(' ', 0) =~= f);
        if !full { assert(r + rows(t, w, i, k) =~= f + rows(t.skip(1), w, j + 1, k)); }
        else if k > 1 { assert(r + rows(t, w, i, k) =~= f.push('\n') + rows(t.skip(1), w, 0, k - 1)); }
        else { assert(r + rows(t, w, i, k) =~= f); assert(f + blank(w, 0) =~= f); }
    }
}
pub proof fn lemma_start(r: Seq<char>, t: Seq<char>, w: int, h: int)
    requires breaks(r) == 1,
    ensures going(r, t, w, 0, h, 1, r + rows(t, w, 0, h - 2)),
{ }
pub proof fn lemma_one_more(r: Seq<char>, w: int, h: int, all: Seq<char>, ok: bool)
    requires w > 0, ok ==> whole(r, w, h, all), ended(r),
    ensures lines_of(r).len() == breaks(r) + 1, ok && breaks(r) + 1 < h - 1 ==> whole(r.push('\n') + run(' ', w), w, h, all),
        ok && breaks(r) + 1 >= h - 1 ==> r == all,
        breaks(r.push('\n') + run(' ', w)) == breaks(r) + 1, ended(r.push('\n') + run(' ', w)), breaks(r) >= 0,
{
    lemma_push(r, '\n'); lemma_padded(r.push('\n'), ' ', w);
    let k = h - 2 - breaks(r);
    if ok { if k > 0 { assert(r + blank(w, k) =~= (r.push('\n') + run(' ', w)) + blank(w, k - 1)); } else { assert(r + blank(w, k) =~= r); } }
}
/// the texts the widgets are put together from
pub proof fn lemma_pieces()
    ensures "\n"@ == seq!['\n'], " "@ == seq![' '], "─"@ == seq!['─'], forall|s: Seq<char>| #[trigger] (s + "\n"@) == s.push('\n'),
        forall|n: nat| #[trigger] rep(seq!['─'], n) == run('─', n as int), forall|n: nat| #[trigger] rep(seq![' '], n) == run(' ', n as int),
        forall|c: char, n: int| n >= 0 ==> (#[trigger] run(c, n)).len() == n,
{
    assert forall|n: nat| #[trigger] rep(seq!['─'], n) == run('─', n as int) by { lemma_run('─', n); }
    assert forall|n: nat| #[trigger] rep(seq![' '], n) == run(' ', n as int) by { lemma_run(' ', n); }
    reveal_strlit("\n"); reveal_strlit(" "); reveal_strlit("─");
    assert("\n"@ =~= seq!['\n']); assert(" "@ =~= seq![' ']); assert("─"@ =~= seq!['─']);
    assert forall|s: Seq<char>| #[trigger] (s + "\n"@) == s.push('\n') by { assert(s + "\n"@ =~= s.push('\n')); }
}
pub proof fn lemma_cut(c: char)
    ensures forall|n: int| n > 0 ==> (#[trigger] run(c, n).drop_last()) == run(c, n - 1),
{ assert forall|n: int| n > 0 implies (#[trigger] run(c, n).drop_last()) == run(c, n - 1) by { assert(run(c, n).drop_last() =~= run(c, n - 1)); } }
pub proof fn lemma_end(s: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures s + ("\n└"@ + a + b + c + "┘"@) == s + seq!['\n'] + (seq!['└'] + (a + b + c) + seq!['┘']),
{
    reveal_strlit("\n└"); reveal_strlit("┘");
    assert(s + ("\n└"@ + a + b + c + "┘"@) =~= s + seq!['\n'] + (seq!['└'] + (a + b + c) + seq!['┘']));
}
pub proof fn lemma_bottom(w: int, tl: int)
    requires 0 <= tl <= w - 2,
    ensures bar((w - 2 - tl) / 2) + bar(tl) + bar((w - 2 - tl + 1) / 2) == bar(w - 2),
{ assert(bar((w - 2 - tl) / 2) + bar(tl) + bar((w - 2 - tl + 1) / 2) =~= bar(w - 2)); }
// ---------------------------------------------------------------- joining
/// the characters of the first line
pub open spec fn first_width(s: Seq<char>) -> int { if lines_of(s).len() == 0 { 0 } else { lines_of(s)[0].len() as int } }
pub enum Got { Bad, Fails(Error), All(Seq<Seq<char>>) }
/// joined above each other, texts have first lines of the same width; beside each other, as many lines
pub open spec fn alike(a: Seq<char>, b: Seq<char>, above: bool) -> bool {
    if above { first_width(trimmed(a)) == first_width(trimmed(b)) } else { lines_of(a).len() == lines_of(b).len() }
}
/// the operands from the i-th on, evaluated one after the other as long as they are texts that fit the first
pub open spec fn got(a: Seq<Expression>, i: int, e: Environment, t: Seq<Seq<char>>, above: bool) -> (Got, Environment)
    decreases a.len() - i,
{
    if i < 0 || i >= a.len() { (Got::All(t), e) } else { match evals(a[i], e) {
        (Err(x), e1) => (Got::Fails(x), e1),
        (Ok(Expression::String(s)), e1) => if alike(t.push(s@)[0], s@, above) { got(a, i + 1, e1, t.push(s@), above) } else { (Got::Bad, e1) },
        (Ok(_), e1) => (Got::Bad, e1),
    } }
}
pub open spec fn listed(v: Seq<Vec<String>>, t: Seq<Seq<char>>) -> bool { v.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> strings((#[trigger] v[i])@) == lines_of(t[i]) }
pub open spec fn same_height(t: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < t.len() ==> lines_of(#[trigger] t[i]).len() == lines_of(t[0]).len() }
pub open spec fn cut(v: Seq<String>, t: Seq<Seq<char>>) -> bool { v.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> (#[trigger] v[i])@ == trimmed(t[i]) }
/// the n-th line of the first k texts
pub open spec fn across(t: Seq<Seq<char>>, n: int, k: int) -> Seq<char>
    decreases k,
{ if k <= 0 { Seq::empty() } else { across(t, n, k - 1) + without(lines_of(t[k - 1])[n], '\r') } }
/// the first n lines of the texts beside each other
pub open spec fn beside(t: Seq<Seq<char>>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { Seq::empty() } else { beside(t, n - 1) + across(t, n - 1, t.len() as int) + seq!['\n'] } }
} // verus!
verus! {
//@ end
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ fn check_args_len
    ensures r is Ok <==> expected_len.within(args@.len() as usize),
//@ fn fill strlen
    ensures r@ == laid($0@, $1 as int),
//@ entry
    proof { lemma_small(bl($0@) as int, fewer($1 as int, bl($0@) as int)); }
//@ file src/binary/init/widget_module.rs
//@ fn create loops=2
//@ attrs
#[verifier::rlimit(80)] #[verifier::spinoff_prover]
//@ contract
    ensures $0@.len() != 4 ==> r is Err && *final($1) == *old($1),
        $0@.len() == 4 ==> match evals($0@[0], *old($1)) {
            (Err(x), e1) => r == R::Err(x) && *final($1) == e1,
            (Ok(title), e1) => match evals($0@[2], e1) {
                (Err(x), e2) => r == R::Err(x) && *final($1) == e2,
                (Ok(wide), e2) => if !(wide is Integer && wide->Integer_0 > 4) { r is Err } else {
                    let w = wide->Integer_0 as int;
                    match evals($0@[1], e2) {
                        (Err(x), e3) => r == R::Err(x) && *final($1) == e3,
                        (Ok(text), e3) => match evals($0@[3], e3) {
                            (Err(x), e4) => r == R::Err(x) && *final($1) == e4,
                            (Ok(high), e4) => *final($1) == e4 && if !(high is Integer && high->Integer_0 > 2) || display(title).len() > w - 2 { r is Err } else {
                                r is Ok && r->Ok_0 is String && (!display(title).contains('\n') && w < 0x20_0000_0000_0000 ==>
                                    is_text(r->Ok_0, widget(display(title), without(laid(filled_up(display(text), fewer((w - 2) * 2 / 3, 65535)), w - 2), '\r'), w, high->Integer_0 as int)))
                            },
                        },
                    }
                },
            },
        },
//@ entry
    hide(rows); hide(blank); hide(breaks); hide(run); hide(rep); hide(going); hide(whole); hide(ended);
    proof { lemma_pieces(); }
//@ after_let result 0
    let ghost gtop = result@; let ghost gok = !title@.contains('\n') && text_width + 2 < 0x20_0000_0000_0000;
    proof {
        lemma_pieces(); lemma_cut('─');
        assert("┌"@ =~= seq!['┌']); assert("┐\n"@ =~= seq!['┐', '\n']);
        assert(gtop.len() >= 6);
        if gok {
            lemma_top(title@, text_width as int + 2); lemma_no_breaks(top(title@, text_width as int + 2)); lemma_push(top(title@, text_width as int + 2), '\n');
            assert(gtop =~= top(title@, text_width as int + 2).push('\n'));
        }
    }
//@ after_let width 0
    let ghost gw = width as int; let ghost gh = widget_height as int; let ghost gt = without(text@, '\r'); let ghost gall = gtop + rows(gt, gw, 0, gh - 2);
//@ before_loop 0
    proof { if gok { lemma_start(result@, gt, gw, gh); } }
//@ loop 0
    invariant gw == width, gw >= 5, gh == widget_height, gh >= 3, 1 <= lines <= gh - 2, i < width,
        gok ==> going(result@, vx_it1@, gw, i as int, gh, lines as int, gall),
    ensures i <= width, ended(result@ + run(' ', gw - i)), gok ==> whole(result@ + run(' ', gw - i), gw, gh, gall),
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_pieces(); step(result@, vx_it1@, gw, i as int, gh, lines as int, gall, gok); }
//@ after_loop 0
    proof { lemma_pieces(); }
//@ loop 1
    invariant gw == width, gw >= 5, gh == widget_height, gh >= 3, ended(result@), gok ==> whole(result@, gw, gh, gall),
    decreases gh - breaks(result@),
//@ loop_start 1
    proof { lemma_pieces(); lemma_one_more(result@, gw, gh, gall, gok); }
//@ after_loop 1
    proof {
        lemma_pieces(); lemma_one_more(result@, gw, gh, gall, gok); lemma_bottom(gw, title_len as int);
        lemma_end(result@, bar((gw - 2 - title_len) / 2), bar(title_len as int), bar((gw - 2 - title_len + 1) / 2));
        if gok { assert(left_border_half@ == bar((gw - 2 - title_len) / 2)); assert(right_border_half@ == bar((gw - 2 - title_len + 1) / 2)); }
    }
//@ fn joinx loops=4
    ensures $0@.len() < 2 ==> r is Err && *final($1) == *old($1),
        $0@.len() >= 2 ==> match got($0@, 0, *old($1), Seq::empty(), false) {
            (Got::Bad, e1) => r is Err && *final($1) == e1,
            (Got::Fails(x), e1) => r == R::Err(x) && *final($1) == e1,
            (Got::All(t), e1) => r is Ok && *final($1) == e1 && is_text(r->Ok_0, beside(t, lines_of(t[0]).len() as int)),
        },
//@ entry
    proof { lemma_pieces(); }
    let ghost mut gacc: Seq<Seq<char>> = Seq::empty();
//@ before_loop 0
    let ghost gn = $0@.len() as int;
//@ loop 0
    invariant gn == $0@.len(), gn >= 2, vx_it1@.len() <= gn, gacc.len() == gn - vx_it1@.len(),
        forall|i: int| 0 <= i < vx_it1@.len() ==> (#[trigger] vx_it1@[i]).0 == gn - vx_it1@.len() + i && *vx_it1@[i].1 == $0@[gn - vx_it1@.len() + i],
        got($0@, 0, *old($1), Seq::empty(), false) == got($0@, gn - vx_it1@.len(), *$1, gacc, false),
        listed(string_args@, gacc), same_height(gacc), gacc.len() > 0 ==> height == lines_of(gacc[0]).len(),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    let ghost gi = gn - vx_it1@.len(); let ghost genv = *$1; let ghost gold = gacc;
//@ loop 1
    invariant vx_out1@.len() + vx_it2@.len() == lines_of(s@).len(), texts(vx_it2@) == lines_of(s@).skip(vx_out1@.len() as int), strings(vx_out1@) == lines_of(s@).take(vx_out1@.len() as int),
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ loop_start 1
    let ghost gk = vx_out1@.len() as int; let ghost go = vx_out1@; let ghost gr = vx_it2@;
    proof {
        let l = lines_of(s@);
        if gr.len() > 0 { assert(texts(gr)[0] == l[gk]); assert(texts(gr.skip(1)) =~= texts(gr).skip(1)); assert(l.skip(gk).skip(1) =~= l.skip(gk + 1)); assert(l.take(gk + 1) =~= l.take(gk).push(l[gk])); }
        assert forall|x: String| #[trigger] strings(go.push(x)) == strings(go).push(x@) by { assert(strings(go.push(x)) =~= strings(go).push(x@)); }
    }
//@ after_let lines 0
    proof { assert(strings(lines@) =~= lines_of(s@)); gacc = gacc.push(s@); }
//@ loop 2
    invariant same_height(gacc), listed(string_args@, gacc), gacc.len() >= 2, height == lines_of(gacc[0]).len(),
        vx_it3@.len() <= height, forall|i: int| 0 <= i < vx_it3@.len() ==> #[trigger] vx_it3@[i] == height - vx_it3@.len() + i,
        result@ == beside(gacc, height - vx_it3@.len()),
    ensures vx_it3@.len() == 0,
    decreases vx_it3@.len(),
//@ loop_start 2
    let ghost gat = height - vx_it3@.len();
//@ loop 3
    invariant 0 <= gat < height, line_n == gat, vx_it4@.len() <= gacc.len(), same_height(gacc), listed(string_args@, gacc), gacc.len() >= 2, height == lines_of(gacc[0]).len(),
        forall|i: int| 0 <= i < vx_it4@.len() ==> *(#[trigger] vx_it4@[i]) == string_args@[gacc.len() - vx_it4@.len() + i],
        result@ == beside(gacc, gat) + across(gacc, gat, gacc.len() - vx_it4@.len()),
    ensures vx_it4@.len() == 0,
    decreases vx_it4@.len(),
//@ fn joiny loops=2
    ensures $0@.len() < 2 ==> r is Err && *final($1) == *old($1),
        $0@.len() >= 2 ==> match got($0@, 0, *old($1), Seq::empty(), true) {
            (Got::Bad, e1) => r is Err && *final($1) == e1,
            (Got::Fails(x), e1) => r == R::Err(x) && *final($1) == e1,
            (Got::All(t), e1) => r is Ok && *final($1) == e1 && is_text(r->Ok_0, with_between(Seq::new(t.len(), |i: int| without(trimmed(t[i]), '\r')), seq!['\n'])),
        },
//@ entry
    proof { lemma_pieces(); }
    let ghost mut gacc: Seq<Seq<char>> = Seq::empty();
//@ before_loop 0
    let ghost gn = $0@.len() as int;
//@ loop 0
    invariant gn == $0@.len(), gn >= 2, vx_it1@.len() <= gn, gacc.len() == gn - vx_it1@.len(),
        forall|i: int| 0 <= i < vx_it1@.len() ==> (#[trigger] vx_it1@[i]).0 == gn - vx_it1@.len() + i && *vx_it1@[i].1 == $0@[gn - vx_it1@.len() + i],
        got($0@, 0, *old($1), Seq::empty(), true) == got($0@, gn - vx_it1@.len(), *$1, gacc, true),
        cut(string_args@, gacc),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ arm Expression::String 0
    proof { gacc = gacc.push(s@); }
//@ loop 1
    invariant vx_out1@.len() + vx_it2@.len() == gacc.len(), cut(string_args@, gacc), vx_it2@ == string_args@.skip(vx_out1@.len() as int),
        strings(vx_out1@) == made.take(vx_out1@.len() as int),
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ before_loop 1
    let ghost made = Seq::new(gacc.len(), |i: int| without(trimmed(gacc[i]), '\r'));
    proof { assert(made.take(0) =~= Seq::empty()); assert(strings(Seq::empty()) =~= Seq::empty()); }
//@ loop_start 1
    let ghost gk = vx_out1@.len() as int;
    proof { assert(gk < made.len() ==> made.take(gk + 1) =~= made.take(gk).push(made[gk])); }
//@ after_loop 1
    proof { assert(made.take(gacc.len() as int) =~= made); }
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
