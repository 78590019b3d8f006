//@ include pre.vspec
//@ include text.vspec
//@ include exprcore.vspec
//@ include std.vspec
//@ include coll.vspec
//@ default vclone ctx fmtshow fmtcat fmtwrite fmtacc strlen strslice ren=push
//@ raw
verus! {
// ---------------------------------------------------------------- text, as std writes it
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
/// a number, bytes and texts between quotes, a name of nom's, as std writes them
pub uninterp spec fn number_text(n: int) -> Seq<char>;
pub uninterp spec fn quoted(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn quoted_char(c: char) -> Seq<char>;
pub uninterp spec fn kind_text(k: nom::error::ErrorKind) -> Seq<char>;
/// a value written in a line (V01)
pub uninterp spec fn written(e: Expression) -> Seq<char>;
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub open spec fn blanks(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
pub open spec fn at_right(s: Seq<char>, n: nat) -> Seq<char> { if s.len() < n { blanks((n - s.len()) as nat) + s } else { s } }
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn strings(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn with_between(l: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else { with_between(l.drop_last(), sep) + sep + l.last() } }
/// the pieces of a text between the characters c
pub open spec fn cut(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![s] } else if s.last() == c { cut(s.drop_last(), c).push(Seq::empty()) }
    else { let p = cut(s.drop_last(), c); p.drop_last().push(p.last().push(s.last())) }
}
/// how often c is in a text, and what is behind the last
pub open spec fn times(s: Seq<char>, c: char) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { times(s.drop_last(), c) + if s.last() == c { 1nat } else { 0 } } }
pub open spec fn behind(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 || s.last() == c { Seq::empty() } else { behind(s.drop_last(), c).push(s.last()) } }
pub proof fn lemma_cut(s: Seq<char>, c: char)
    ensures cut(s, c).len() == times(s, c) + 1, cut(s, c).last() == behind(s, c),
    decreases s.len(),
{ if s.len() > 0 { lemma_cut(s.drop_last(), c); } }
pub mod axr {
    use super::*;
    verus! {
    /// a text has no more lines than characters
    pub broadcast axiom fn ax_line_count(s: Seq<char>) ensures #[trigger] lines_of(s).len() <= s.len();
    pub proof fn lemma_two(o: Seq<char>, a: Seq<char>, b: Seq<char>) ensures o + (a + b) == o + a + b { assert(o + (a + b) =~= o + a + b); }
    pub proof fn lemma_three(o: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures o + (a + b + c) == o + a + b + c { assert(o + (a + b + c) =~= o + a + b + c); }
    pub proof fn lemma_five(o: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>) ensures o + (a + b + c + d + e) == o + a + b + c + d + e { assert(o + (a + b + c + d + e) =~= o + a + b + c + d + e); }
    }
}
impl VxToString for usize {
    open spec fn shown(&self) -> Seq<char> { number_text(*self as int) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
pub trait VxRight { spec fn whole_text(&self) -> Seq<char>; fn vx_right(&self, n: usize) -> (r: String) ensures r@ == at_right(self.whole_text(), n as nat); }
impl VxRight for usize {
    open spec fn whole_text(&self) -> Seq<char> { number_text(*self as int) }
    #[verifier::external_body]
    fn vx_right(&self, n: usize) -> (r: String) { unimplemented!() }
}
pub trait VxDebug { spec fn dbg(&self) -> Seq<char>; fn vx_to_debug(&self) -> (r: String) ensures r@ == self.dbg(); }
impl VxDebug for Expression {
    open spec fn dbg(&self) -> Seq<char> { written(*self) }
    #[verifier::external_body]
    fn vx_to_debug(&self) -> (r: String) { unimplemented!() }
}
pub open spec fn all_written(v: Seq<Expression>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| written(v[i])) }
pub open spec fn list_written(v: Seq<Expression>) -> Seq<char> { "["@ + with_between(all_written(v), ", "@) + "]"@ }
impl VxDebug for Vec<Expression> {
    open spec fn dbg(&self) -> Seq<char> { list_written(self@) }
    #[verifier::external_body]
    fn vx_to_debug(&self) -> (r: String) { unimplemented!() }
}
impl VxDebug for char {
    open spec fn dbg(&self) -> Seq<char> { quoted_char(*self) }
    #[verifier::external_body]
    fn vx_to_debug(&self) -> (r: String) { unimplemented!() }
}
impl VxDebug for str {
    open spec fn dbg(&self) -> Seq<char> { quoted(self@) }
    #[verifier::external_body]
    fn vx_to_debug(&self) -> (r: String) { unimplemented!() }
}
impl VxDebug for nom::error::ErrorKind {
    open spec fn dbg(&self) -> Seq<char> { kind_text(*self) }
    #[verifier::external_body]
    fn vx_to_debug(&self) -> (r: String) { unimplemented!() }
}
impl<T: VxDebug + ?Sized> VxDebug for &T {
    open spec fn dbg(&self) -> Seq<char> { (**self).dbg() }
    #[verifier::external_body]
    fn vx_to_debug(&self) -> (r: String) { unimplemented!() }
}
pub trait VxText {
    spec fn t(&self) -> Seq<char>;
    fn vx_lines(&self) -> (r: VxIt<&str>) ensures texts(r@) == lines_of(self.t());
    fn vx_split(&self, c: char) -> (r: VxIt<&str>) ensures texts(r@) == cut(self.t(), c);
    fn vx_rsplit(&self, c: char) -> (r: VxIt<&str>) ensures texts(r@) == cut(self.t(), c).reverse();
    fn vx_matches(&self, c: char) -> (r: VxIt<&str>) ensures r@.len() == times(self.t(), c);
    fn vx_ends_with(&self, c: char) -> (r: bool) ensures r == (self.t().len() > 0 && self.t().last() == c);
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.t());
}
impl VxText for str {
    open spec fn t(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split(&self, c: char) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_rsplit(&self, c: char) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_matches(&self, c: char) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_ends_with(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { unimplemented!() }
}
impl<'a> VxLen for Vec<&'a str> {
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl<T> VxIt<T> {
    #[verifier::external_body]
    pub fn vx_next_back(self) -> (r: Option<T>) ensures r == (if self@.len() == 0 { None } else { Some(self@.last()) }) { unimplemented!() }
}
impl<T: Copy> VxIt<&T> {
    #[verifier::external_body]
    pub fn vx_copied(self) -> (r: VxIt<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
}
pub trait VxOrEmpty<'a> { fn vx_unwrap_or_default(self) -> &'a str; }
impl<'a> VxOrEmpty<'a> for Option<&'a str> {
    #[verifier::external_body]
    fn vx_unwrap_or_default(self) -> (r: &'a str) ensures r@ == (match self { Some(x) => x@, None => Seq::empty() }) { unimplemented!() }
}
pub trait VxLast<T> { fn vx_last(&self) -> Option<&T>; }
impl<T> VxLast<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_last(&self) -> (r: Option<&T>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && *r->Some_0 == self@.last() { unimplemented!() }
}
pub trait VxSizes: Sized { fn vx_min(self, o: Self) -> Self; fn vx_max(self, o: Self) -> Self; fn vx_saturating_sub(self, o: Self) -> Self; }
impl VxSizes for usize {
    fn vx_min(self, o: usize) -> (r: usize) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } }
    fn vx_max(self, o: usize) -> (r: usize) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } }
    fn vx_saturating_sub(self, o: usize) -> (r: usize) ensures r == (if self >= o { self - o } else { 0 }) { if self >= o { (self - o) as usize } else { 0 } }
}
// ---------------------------------------------------------------- where text is written
pub mod fmt {
    use super::*;
    verus! {
    /// std::fmt::Formatter: what has been written, and whether what it writes to still takes text
    #[verifier::external_body]
    pub struct Formatter<'a> { p: &'a u8 }
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    impl<'a> Formatter<'a> {
        pub uninterp spec fn view(&self) -> Seq<char>;
        pub uninterp spec fn open(&self) -> bool;
        #[verifier::external_body]
        pub fn write_str<S: VxStr + ?Sized>(&mut self, s: &S) -> (r: Result)
            ensures r is Ok ==> final(self)@ == old(self)@ + s.txt(), old(self).open() ==> r is Ok && final(self).open(),
        { unimplemented!() }
    }
    }
}
/// what has been written so far; and writing so much that this has been written
#[verifier::external_body]
pub fn vx_written(f: &fmt::Formatter) -> (r: String) ensures r@ == f@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_write(f: &mut fmt::Formatter, s: String) -> (r: fmt::Result)
    ensures r is Ok ==> final(f)@ == s@, old(f).open() ==> r is Ok && final(f).open(),
{ unimplemented!() }
}
//@ end
//@ raw
verus! {
//@ end
//@ file src/tokenizer.rs
//@ types Diagnostic
//@ file src/parser.rs
//@ types SyntaxError
//@ include inside.vspec
//@ raw
// ---------------------------------------------------------------- what is reported
pub open spec fn part(s: Seq<char>, x: StrSlice) -> Seq<char> { s.subrange(cix(s, x.start as nat), cix(s, x.end as nat)) }
pub open spec fn before(s: Seq<char>, x: StrSlice) -> Seq<char> { s.take(cix(s, x.start as nat)) }
pub open spec fn after(s: Seq<char>, x: StrSlice) -> Seq<char> { s.skip(cix(s, x.end as nat)) }
pub open spec fn red() -> Seq<char> { "\x1b[38;5;9m"@ }
pub open spec fn bold() -> Seq<char> { "\x1b[1m"@ }
pub open spec fn reset() -> Seq<char> { "\x1b[m\x1b[0m"@ }
pub open spec fn upto(s: Seq<char>, n: int) -> Seq<char> { s.take(nmin(n, s.len() as int)) }
/// the line number of the first line of a part
pub open spec fn line_number(s: Seq<char>, x: StrSlice) -> int { times(before(s, x), '\n') as int + 1 }
/// what the line on which the part begins, or ends, has beside it
pub open spec fn begun(s: Seq<char>, x: StrSlice) -> Seq<char> { behind(before(s, x), '\n') }
pub open spec fn rest_of(s: Seq<char>, x: StrSlice) -> Seq<char> {
    let p = part(s, x);
    let l = lines_of(after(s, x));
    if p.len() > 0 && p.last() == '\n' { Seq::empty() } else if l.len() == 0 { Seq::empty() } else { l[0] }
}
/// In the following o is what has been written before, and the value what has been written then.
/// A line of the report: its number (its text follows)
pub open spec fn numbered(o: Seq<char>, n: int) -> Seq<char> { o + at_right(number_text(n), 5) + w" | " }
/// the lines of the part but the first, so many of them
pub open spec fn further(o: Seq<char>, l: Seq<Seq<char>>, n: int, k: nat, w: int) -> Seq<char>
    decreases k,
{ if 1 < k <= l.len() { numbered(further(o, l, n, (k - 1) as nat, w) + w"\n", n + k - 1) + red() + upto(l[k - 1], w) + reset() } else { o } }
pub open spec fn bar(o: Seq<char>) -> Seq<char> { o + w"      |\n" }
pub open spec fn one_line(o: Seq<char>, n: int, b: Seq<char>, m: Seq<char>, a: Seq<char>, w: int) -> Seq<char> {
    numbered(o, n) + upto(b, w) + red() + m + reset() + upto(a, w - nmin(w, b.len() as int)) + w"\n"
}
pub open spec fn many_lines(o: Seq<char>, n: int, b: Seq<char>, l: Seq<Seq<char>>, a: Seq<char>, w: int) -> Seq<char> {
    further(numbered(o, n) + upto(b + red() + l[0], w) + reset(), l, n, l.len(), w)
        + w"\n" + upto(a, if l.last().len() < w { w - l.last().len() } else { 0 }) + reset() + w"\n"
}
/// the part with its lines around
pub open spec fn excerpt(o: Seq<char>, s: Seq<char>, x: StrSlice, w: int) -> Seq<char> {
    let l = lines_of(part(s, x));
    let n = line_number(s, x);
    if l.len() == 0 { bar(one_line(bar(o), n, begun(s, x), Seq::empty(), rest_of(s, x), w)) }
    else if l.len() == 1 { bar(one_line(bar(o), n, begun(s, x), l[0], rest_of(s, x), w)) }
    else { bar(many_lines(bar(o), n, begun(s, x), l, rest_of(s, x), w)) }
}
pub open spec fn syntax_head(o: Seq<char>) -> Seq<char> { o + red() + bold() + w"syntax error" + reset() + w": " }
pub open spec fn escapes_report(o: Seq<char>, s: Seq<char>, v: Seq<StrSlice>) -> Seq<char>
    decreases v.len(),
{
    if v.len() == 0 { o } else {
        excerpt(syntax_head(escapes_report(o, s, v.drop_last())) + w"invalid string escape sequence `" + trimmed(part(s, v.last())) + w"`\n", s, v.last(), 72)
    }
}
pub open spec fn diag_report(o: Seq<char>, s: Seq<char>, d: Diagnostic) -> Seq<char> {
    match d {
        Diagnostic::Valid => o,
        Diagnostic::InvalidStringEscapes(v) => escapes_report(o, s, v@),
        Diagnostic::InvalidNumber(x) => excerpt(syntax_head(o) + w"invalid number `" + trimmed(part(s, x)) + w"`\n", s, x, 72),
        Diagnostic::IllegalChar(x) => excerpt(syntax_head(o) + w"invalid token " + quoted(part(s, x)) + w"\n", s, x, 72),
        Diagnostic::NotTokenized(x) => excerpt(o + red() + bold() + w"error" + reset() + w": " + w"there are leftover tokens after tokenizing: " + part(s, x) + w"\n", s, x, 72),
    }
}
pub open spec fn diags_report(o: Seq<char>, s: Seq<char>, v: Seq<Diagnostic>) -> Seq<char>
    decreases v.len(),
{ if v.len() == 0 { o } else { diag_report(diags_report(o, s, v.drop_last()), s, v.last()) } }
pub open spec fn place(o: Seq<char>, s: Seq<char>, at: Option<StrSlice>) -> Seq<char> { match at { Some(x) => excerpt(o, s, x, 72), None => o } }
pub open spec fn syntax_report(o: Seq<char>, s: Seq<char>, e: SyntaxError) -> Seq<char>
    decreases e,
{
    match e {
        SyntaxError::Expected { input, expected, found, hint } => {
            let a = syntax_head(o) + w"expected " + expected@;
            let b = match found { Some(x) => a + w", found " + x@, None => a };
            let c = excerpt(b + w"\n", s, input, 72);
            match hint { Some(x) => c + w"    hint: " + x@ + w"\n", None => c }
        }
        SyntaxError::TokenizationErrors(v) => diags_report(o, s, v@),
        SyntaxError::ExpectedChar { expected, at } => place(syntax_head(o) + w"expected " + quoted_char(expected) + w"\n", s, at),
        SyntaxError::NomError { kind, at, cause } => {
            let a = place(o + red() + bold() + w"unexpected syntax error" + reset() + w": " + w"`" + kind_text(kind) + w"`\n", s, at);
            match cause { Some(c) => syntax_report(a, s, *c), None => a }
        }
        SyntaxError::InternalError => o + red() + bold() + w"unexpected syntax error" + reset() + w"\n",
    }
}
pub open spec fn report(o: Seq<char>, e: Error) -> Seq<char> {
    match e {
        Error::CannotApply(f, a) => o + w"cannot apply `" + written(f) + w"` to the arguments " + list_written(a@),
        Error::SymbolNotDefined(n) => o + w"symbol \"" + n@ + w"\" not defined",
        Error::CommandFailed(n, a) => o + w"command `" + written(Expression::Apply(Box::new(Expression::Symbol(n)), a)) + w"` failed",
        Error::ForNonList(x) => o + w"attempted to iterate over non-list `" + written(x) + w"`",
        Error::RecursionDepth(x) => o + w"recursion depth exceeded while evaluating " + written(x),
        Error::PermissionDenied(x) => o + w"permission denied while evaluating " + written(x),
        Error::ProgramNotFound(n) => o + w"program \"" + n@ + w"\" not found",
        Error::SyntaxError(s, e) => syntax_report(o, s@, e),
        Error::CustomError(t) => o + t@,
    }
}
}
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, ax::ax_string_len, axr::ax_line_count};
pub proof fn lemma_times(s: Seq<char>, c: char)
    ensures times(s, c) <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_times(s.drop_last(), c); } }
/// the pieces before the part: their number, and the last
pub proof fn lemma_inside(s: Seq<char>, x: StrSlice)
    requires inside(s, x),
    ensures 0 <= cix(s, x.start as nat) <= cix(s, x.end as nat) <= s.len(),
{
    let i = cix(s, x.start as nat); let j = cix(s, x.end as nat);
    assert(at(s, x.start as nat, i)); assert(at(s, x.end as nat, j));
    if i > j { lemma_bl_take(s, j, i); }
}
pub proof fn lemma_before(s: Seq<char>, x: StrSlice)
    requires inside(s, x),
    ensures cut(before(s, x), '\n').len() == line_number(s, x), cut(before(s, x), '\n').last() == begun(s, x), line_number(s, x) <= s.len() + 1,
{ lemma_inside(s, x); lemma_cut(before(s, x), '\n'); lemma_times(before(s, x), '\n'); }
//@ end
//@ file src/error.rs
//@ consts RED_START BOLD RESET
//@ fn print_error_lines loops=1
//@ attrs
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@ contract
    requires inside($0@, $1), $3 >= 0,
    ensures r is Ok ==> final($2)@ == excerpt(old($2)@, $0@, $1, $3 as int), old($2).open() ==> r is Ok && final($2).open(),
//@ entry
    let ghost gpart = part($0@, $1); let ghost glines = lines_of(gpart); let ghost gbefore = before($0@, $1); let ghost gafter = after($0@, $1);
    proof { lemma_inside($0@, $1); lemma_before($0@, $1); axt::ax_strbox_len($0); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); lemma_bl_pos($0@); lemma_bl_pos(gpart); assert(gpart.len() <= $0@.len()); }
//@ after_let lines 0
    proof { assert(texts(lines@) == glines); }
    let ghost mut gf: Seq<char> = Seq::empty();
//@ after_let singleline 0
    proof { assert(singleline <==> glines.len() <= 1); if glines.len() > 0 { assert(glines[0] == lines@[0]@); } }
//@ after_let first_line_number 0
    proof { assert(first_line_number == line_number($0@, $1)); assert(line_before@ == begun($0@, $1)); assert(gafter == $0@.skip(cix($0@, $1.end as nat))); if !(gpart.len() > 0 && gpart.last() == '\n') { if lines_of(gafter).len() == 0 { assert(line_after@ == Seq::<char>::empty()); } else { assert(line_after@ == lines_of(gafter)[0]); } } assert(line_after@ == rest_of($0@, $1)); }
//@ after_let line 0
    proof { axr::lemma_five(numbered(f@, first_line_number as int), upto(line_before@, max_width as int), red(), lines@[0]@, reset(), upto(line_after@, max_width - nmin(max_width as int, line_before@.len() as int)));
        assert(line@ == upto(line_before@, max_width as int) + red() + lines@[0]@ + reset() + upto(line_after@, max_width - nmin(max_width as int, line_before@.len() as int))); }
//@ after_let first_line 0
    proof { axr::lemma_two(numbered(f@, first_line_number as int), upto(line_before@ + red() + lines@[0]@, max_width as int), reset());
        assert(first_line@ == upto(line_before@ + red() + lines@[0]@, max_width as int) + reset()); }
//@ after_let line 1
    proof { axr::lemma_three(numbered(f@ + "\n"@, first_line_number + i), red(), upto(glines[gk], max_width as int), reset());
        assert(line@ == red() + upto(glines[gk], max_width as int) + reset()); }
//@ after_let suffix 0
    proof { axr::lemma_two(f@ + "\n"@, upto(line_after@, if glines.last().len() < max_width { max_width - glines.last().len() } else { 0 }), reset());
        assert(suffix@ == upto(line_after@, if glines.last().len() < max_width { max_width - glines.last().len() } else { 0 }) + reset()); }
//@ before_loop 0
    proof { gf = f@; }
//@ loop 0
    invariant vx_it1@.len() < lines@.len(), f@ == further(gf, glines, first_line_number as int, (glines.len() - vx_it1@.len()) as nat, max_width as int),
        old(f).open() ==> f.open(),
        forall|i: int| 0 <= i < vx_it1@.len() ==> (#[trigger] vx_it1@[i]).0 == glines.len() - vx_it1@.len() + i && vx_it1@[i].1 == lines@[glines.len() - vx_it1@.len() + i],
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    let ghost gk = glines.len() - vx_it1@.len();
    proof { if vx_it1@.len() > 0 { assert(vx_it1@[0].0 == gk); assert(glines[gk] == lines@[gk]@); } }
//@ fn fmt_token_error loops=1
    requires diag_inside($0@, *$1),
    ensures r is Ok ==> final($2)@ == diag_report(old($2)@, $0@, *$1), old($2).open() ==> r is Ok && final($2).open(),
//@ entry
    hide(excerpt);
//@ before_loop 0
    let ghost gf = f@;
//@ loop 0
    invariant vx_it1@.len() <= ranges@.len(), f@ == escapes_report(gf, $0@, ranges@.take(ranges@.len() - vx_it1@.len())), old(f).open() ==> f.open(),
        forall|i: int| 0 <= i < vx_it1@.len() ==> *(#[trigger] vx_it1@[i]) == ranges@[ranges@.len() - vx_it1@.len() + i],
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    let ghost gk = ranges@.len() - vx_it1@.len();
    proof { assert(ranges@.take(ranges@.len() as int) =~= ranges@); if vx_it1@.len() > 0 { assert(*vx_it1@[0] == ranges@[gk]); assert(ranges@.take(gk + 1).drop_last() =~= ranges@.take(gk)); } }
//@ fn fmt_syntax_error loops=1
    requires error_inside($0@, *$1),
    ensures r is Ok ==> final($2)@ == syntax_report(old($2)@, $0@, *$1), old($2).open() ==> r is Ok && final($2).open(),
    decreases *$1,
//@ entry
    hide(excerpt); hide(diag_report);
//@ before_loop 0
    let ghost gf = f@;
//@ loop 0
    invariant vx_it1@.len() <= errors@.len(), f@ == diags_report(gf, $0@, errors@.take(errors@.len() - vx_it1@.len())), old(f).open() ==> f.open(),
        forall|i: int| 0 <= i < vx_it1@.len() ==> *(#[trigger] vx_it1@[i]) == errors@[errors@.len() - vx_it1@.len() + i],
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    let ghost gk = errors@.len() - vx_it1@.len();
    proof { assert(errors@.take(errors@.len() as int) =~= errors@); if vx_it1@.len() > 0 { assert(*vx_it1@[0] == errors@[gk]); assert(errors@.take(gk + 1).drop_last() =~= errors@.take(gk)); } }
//@ fn Error::fmt@Display name=fmt_display
    requires match *$0 { Error::SyntaxError(s, e) => error_inside(s@, e), _ => true },
    ensures r is Ok ==> final($1)@ == report(old($1)@, *$0), old($1).open() ==> r is Ok && final($1).open(),
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
