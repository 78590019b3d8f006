//@ include lib.vspec
//@ include arith.vspec
//@ default vclone ctx fmtshow fmtcat fmtwrite arith strlen ren=push,width
//@ raw
verus! {
// ---------------------------------------------------------------- text, as std writes it
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
/// an integer, a float, bytes, and a text between quotes, as std writes them
pub uninterp spec fn int_text(n: i64) -> Seq<char>;
pub uninterp spec fn float_text(x: f64) -> Seq<char>;
pub uninterp spec fn bytes_text(b: Vec<u8>) -> Seq<char>;
pub uninterp spec fn quoted(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn strings(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub mod axs {
    use super::*;
    verus! {
    /// a text with a line break has a line
    pub broadcast axiom fn ax_lines(s: Seq<char>) ensures s.contains('\n') ==> (#[trigger] lines_of(s)).len() > 0;
    /// the bytes of a text, and of its lines
    pub broadcast axiom fn ax_first(s: Seq<char>) ensures (#[trigger] lines_of(s)).len() > 0 ==> bl(lines_of(s)[0]) <= bl(s);
    }
}
impl<'a, K, T> VxIntoIt<(&'a K, &'a T)> for &'a BTreeMap<K, T> {
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIt<(&'a K, &'a T)>)
        ensures r@.len() == self.ents().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self.ents()[i].0 && *r@[i].1 == self.ents()[i].1,
    { unimplemented!() }
}
impl VxNum for u16 { open spec fn whole(self) -> int { self as int } open spec fn real(self) -> bool { false } }
impl VxToString for i64 {
    open spec fn shown(&self) -> Seq<char> { int_text(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxToString for f64 {
    open spec fn shown(&self) -> Seq<char> { float_text(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
pub trait VxDebug { spec fn dbg(&self) -> Seq<char>; fn vx_to_debug(&self) -> (r: String) ensures r@ == self.dbg(); }
impl VxDebug for Vec<u8> {
    open spec fn dbg(&self) -> Seq<char> { bytes_text(*self) }
    #[verifier::external_body]
    fn vx_to_debug(&self) -> (r: String) { unimplemented!() }
}
impl VxDebug for String {
    open spec fn dbg(&self) -> Seq<char> { quoted(self@) }
    #[verifier::external_body]
    fn vx_to_debug(&self) -> (r: String) { unimplemented!() }
}
impl VxDebug for Expression {
    open spec fn dbg(&self) -> Seq<char> { written(*self) }
    #[verifier::external_body]
    fn vx_to_debug(&self) -> (r: String) { unimplemented!() }
}
impl<T: VxDebug + ?Sized> VxDebug for &T {
    open spec fn dbg(&self) -> Seq<char> { (**self).dbg() }
    #[verifier::external_body]
    fn vx_to_debug(&self) -> (r: String) { unimplemented!() }
}
pub trait VxPadded { spec fn at_width(&self, n: usize) -> Seq<char>; fn vx_padded(&self, n: usize) -> (r: String) requires n <= 65535, ensures r@ == self.at_width(n); }
impl VxPadded for Expression {
    open spec fn at_width(&self, n: usize) -> Seq<char> { pictured(*self, n as int) }
    #[verifier::external_body]
    fn vx_padded(&self, n: usize) -> (r: String) { unimplemented!() }
}
impl<T: VxPadded + ?Sized> VxPadded for &T {
    open spec fn at_width(&self, n: usize) -> Seq<char> { (**self).at_width(n) }
    #[verifier::external_body]
    fn vx_padded(&self, n: usize) -> (r: String) { unimplemented!() }
}
pub trait VxPat { spec fn inside(&self, s: Seq<char>) -> bool; }
impl VxPat for char { open spec fn inside(&self, s: Seq<char>) -> bool { s.contains(*self) } }
pub trait VxText {
    spec fn t(&self) -> Seq<char>;
    fn vx_lines(&self) -> (r: VxIt<&str>) ensures texts(r@) == lines_of(self.t());
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.inside(self.t());
}
impl VxText for String {
    open spec fn t(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
}
pub open spec fn with_between(l: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else { with_between(l.drop_last(), sep) + sep + l.last() } }
pub trait VxJoin { fn vx_join<S: VxStr + ?Sized>(&self, sep: &S) -> String; }
impl VxJoin for Vec<String> {
    #[verifier::external_body]
    fn vx_join<S: VxStr + ?Sized>(&self, sep: &S) -> (r: String) ensures r@ == with_between(strings(self@), sep.txt()) { unimplemented!() }
}
// ---------------------------------------------------------------- where text is written
pub mod fmt {
    use super::*;
    verus! {
    /// std::fmt::Formatter: what has been written, and the width asked for
    #[verifier::external_body]
    pub struct Formatter<'a> { p: &'a u8 }
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    impl<'a> Formatter<'a> {
        pub uninterp spec fn view(&self) -> Seq<char>;
        /// what it writes to still takes text
        pub uninterp spec fn open(&self) -> bool;
        pub uninterp spec fn wide(&self) -> Option<usize>;
        #[verifier::external_body]
        pub fn vx_width(&self) -> (r: Option<usize>) ensures r == self.wide() { unimplemented!() }
    }
    #[verifier::external_body]
    pub broadcast proof fn ax_wide<'a>(f: Formatter<'a>) ensures (#[trigger] f.wide()) is Some ==> f.wide()->Some_0 <= 65535 { }
    pub struct Debug;
    pub struct Display;
    impl Debug {
        #[verifier::external_body]
        pub fn fmt(b: &Builtin, f: &mut Formatter) -> (r: Result) ensures r is Ok ==> final(f)@ == old(f)@ + builtin_name(*b), old(f).open() ==> r is Ok && final(f).open() { unimplemented!() }
    }
    impl Display {
        #[verifier::external_body]
        pub fn fmt(b: &Builtin, f: &mut Formatter) -> (r: Result) ensures r is Ok ==> final(f)@ == old(f)@ + builtin_name(*b), old(f).open() ==> r is Ok && final(f).open() { unimplemented!() }
    }
    }
}
/// writing is refused only by what is written to
#[verifier::external_body]
pub fn vx_write(f: &mut fmt::Formatter, s: String) -> (r: fmt::Result)
    ensures r is Ok ==> final(f)@ == old(f)@ + s@, old(f).open() ==> r is Ok && final(f).open(),
{ unimplemented!() }
pub open spec fn builtin_name(b: Builtin) -> Seq<char> { "builtin@"@ + b.name@ }
pub struct Width(pub u16);
pub struct Height(pub u16);
pub uninterp spec fn terminal() -> Option<u16>;
#[verifier::external_body]
pub fn terminal_size() -> (r: Option<(Width, Height)>)
    ensures match r { Some(x) => terminal() == Some((x.0).0), None => terminal() is None },
{ unimplemented!() }
/// the columns of the terminal, 120 without one
pub open spec fn columns() -> int { match terminal() { Some(n) => n as int, None => 120 } }
// ---------------------------------------------------------------- values in a line
/// the first n of v, each written in a line
pub open spec fn all_written(v: Vec<Expression>, n: nat) -> Seq<Seq<char>>
    decreases v, n,
{ if 0 < n <= v@.len() { all_written(v, (n - 1) as nat).push(written(v@[n - 1])) } else { Seq::empty() } }
pub open spec fn map_written(m: BTreeMap<String, Expression>, n: nat) -> Seq<Seq<char>>
    decreases m, n via map_dec
{ if 0 < n <= m.ents().len() { map_written(m, (n - 1) as nat).push(m.ents()[n - 1].0@ + ": "@ + written(m.ents()[n - 1].1)) } else { Seq::empty() } }
#[via_fn]
proof fn map_dec(m: BTreeMap<String, Expression>, n: nat) {
    broadcast use axe::ax_map_dec;
    if 0 < n <= m.ents().len() { assert(decreases_to!(m => m.ents()[n - 1].1)); }
}
/// a value in a line
pub open spec fn written(e: Expression) -> Seq<char>
    decreases e, 0nat,
{
    match e {
        Expression::Quote(x) => "'"@ + written(*x),
        Expression::Group(x) => "("@ + written(*x) + ")"@,
        Expression::Symbol(n) => n@,
        Expression::Integer(n) => int_text(n),
        Expression::Float(x) => float_text(x),
        Expression::Bytes(b) => "b"@ + bytes_text(b),
        Expression::String(s) => quoted(s@),
        Expression::Boolean(b) => if b { "True"@ } else { "False"@ },
        Expression::List(v) => "["@ + with_between(all_written(v, v@.len()), ", "@) + "]"@,
        Expression::Map(m) => "{"@ + with_between(map_written(m, m.ents().len()), ", "@) + "}"@,
        Expression::None => "None"@,
        Expression::Lambda(p, b, _) => p@ + " -> "@ + written(*b),
        Expression::Macro(p, b) => p@ + " ~> "@ + written(*b),
        Expression::For(n, l, b) => "for "@ + n@ + " in "@ + written(*l) + " "@ + written(*b),
        Expression::Do(v) => "{ "@ + with_between(all_written(v, v@.len()), "; "@) + " }"@,
        Expression::Assign(n, x) => "let "@ + n@ + " = "@ + written(*x),
        Expression::If(c, x, y) => "if "@ + written(*c) + " "@ + written(*x) + " else "@ + written(*y),
        Expression::Apply(g, a) => written(*g) + " "@ + with_between(all_written(a, a@.len()), " "@),
        Expression::Builtin(b) => builtin_name(b),
    }
}
// ---------------------------------------------------------------- values as they are displayed
pub struct Style { pub left: int, pub right: int, pub border: char, pub column: char, pub top: LineSeparator, pub title: LineSeparator, pub intern: LineSeparator, pub bottom: LineSeparator }
/// a table with so many rows of cells, as prettytable draws it
pub uninterp spec fn table(rows: Seq<Seq<Seq<char>>>, s: Style) -> Seq<char>;
pub open spec fn sep(a: char, b: char, c: char, d: char) -> LineSeparator { LineSeparator { line: a, junc: b, left: c, right: d } }
pub open spec fn list_style() -> Style {
    Style { left: 1, right: 1, border: '┃', column: '┃', top: sep('━', '┳', '┏', '┓'), title: sep('━', '╋', '┣', '┫'), intern: sep('━', '╋', '┣', '┫'), bottom: sep('━', '┻', '┗', '┛') }
}
pub open spec fn map_style() -> Style {
    Style { left: 1, right: 1, border: '│', column: '│', top: sep('═', '╤', '╒', '╕'), title: sep('═', '╪', '╞', '╡'), intern: sep('─', '┼', '├', '┤'), bottom: sep('─', '┴', '└', '┘') }
}
/// how an element of a list is displayed in its cell
pub open spec fn cell(e: Expression) -> Seq<char>
    decreases e, 3nat,
{ match e { Expression::String(s) => quoted(s@), x => pictured(x, columns()) } }
pub open spec fn cells(v: Vec<Expression>, n: nat) -> Seq<Seq<char>>
    decreases v, n,
{ if 0 < n <= v@.len() { cells(v, (n - 1) as nat).push(cell(v@[n - 1])) } else { Seq::empty() } }
/// the bytes of a text's first line
pub open spec fn head(s: Seq<char>) -> int { if s.contains('\n') { bl(lines_of(s)[0]) as int } else { bl(s) as int } }
pub open spec fn room(c: Seq<Seq<char>>) -> int
    decreases c.len(),
{ if c.len() == 0 { 1 } else { room(c.drop_last()) + head(c.last()) + 1 } }
/// how much a key leaves of a row
pub open spec fn left_of(w: int, k: Seq<char>) -> int { if w >= bl(k) + 3 { w - bl(k) - 3 } else { 0 } }
pub open spec fn row_of(k: Seq<char>, e: Expression, w: int) -> Seq<Seq<char>>
    decreases e, 3nat,
{
    match e {
        Expression::Builtin(b) => seq![k, builtin_name(b), textwrap::filled(b.help@, (w / 6) as nat)],
        Expression::Map(_) => seq![k, pictured(e, w)],
        Expression::List(_) => seq![k, textwrap::filled(pictured(e, left_of(w, k)), left_of(w, k) as nat)],
        x => seq![k, textwrap::filled(written(x), (w / 3) as nat)],
    }
}
pub open spec fn table_rows(m: BTreeMap<String, Expression>, n: nat, w: int) -> Seq<Seq<Seq<char>>>
    decreases m, n via rows_dec
{ if 0 < n <= m.ents().len() { table_rows(m, (n - 1) as nat, w).push(row_of(m.ents()[n - 1].0@, m.ents()[n - 1].1, w)) } else { Seq::empty() } }
#[via_fn]
proof fn rows_dec(m: BTreeMap<String, Expression>, n: nat, w: int) {
    broadcast use axe::ax_map_dec;
    if 0 < n <= m.ents().len() { assert(decreases_to!(m => m.ents()[n - 1].1)); }
}
/// a value displayed where there are w columns
pub open spec fn pictured(e: Expression, w: int) -> Seq<char>
    decreases e, 2nat,
{
    match e {
        Expression::String(s) => s@,
        Expression::List(v) => if room(cells(v, v@.len())) > w { written(e) } else { table(seq![cells(v, v@.len())], list_style()) },
        Expression::Map(m) => table(table_rows(m, m.ents().len(), w), map_style()),
        x => written(x),
    }
}
pub mod axd {
    use super::*;
    verus! {
    /// displaying is displaying in the terminal's columns
    pub broadcast axiom fn ax_display(e: Expression) ensures #[trigger] display(e) == pictured(e, columns());
    pub broadcast proof fn lemma_more(v: Seq<String>, x: String)
        ensures #[trigger] strings(v.push(x)) == strings(v).push(x@),
    { assert(strings(v.push(x)) =~= strings(v).push(x@)); }
    pub broadcast proof fn lemma_none(v: Seq<String>)
        ensures v.len() == 0 ==> #[trigger] strings(v) == Seq::<Seq<char>>::empty(),
    { assert(v.len() == 0 ==> strings(v) =~= Seq::<Seq<char>>::empty()); }
    pub broadcast proof fn lemma_cells(v: Seq<Cell>, x: Cell)
        ensures #[trigger] cell_texts(v.push(x)) == cell_texts(v).push(x.text@),
    { assert(cell_texts(v.push(x)) =~= cell_texts(v).push(x.text@)); }
    pub broadcast proof fn lemma_no_cells(v: Seq<Cell>)
        ensures v.len() == 0 ==> #[trigger] cell_texts(v) == Seq::<Seq<char>>::empty(),
    { assert(v.len() == 0 ==> cell_texts(v) =~= Seq::<Seq<char>>::empty()); }
    /// what is in the memory at once is less than can be addressed
    pub broadcast axiom fn ax_held(v: Seq<String>) ensures #[trigger] held(v) <= usize::MAX;
    }
}
pub open spec fn held(v: Seq<String>) -> int
    decreases v.len(),
{ if v.len() == 0 { 1 } else { held(v.drop_last()) + bl(v.last()@) + 1 } }
pub mod textwrap {
    use super::*;
    verus! {
    /// textwrap: the text broken into lines of at most so many columns
    pub uninterp spec fn filled(s: Seq<char>, n: nat) -> Seq<char>;
    #[verifier::external_body]
    pub fn fill<S: VxStr + ?Sized>(s: &S, n: usize) -> (r: String) ensures r@ == filled(s.txt(), n as nat) { unimplemented!() }
    }
}
pub trait VxSizes: Sized { fn vx_min(self, o: Self) -> Self; fn vx_max(self, o: Self) -> Self; fn vx_saturating_sub(self, o: Self) -> Self; }
impl VxSizes for usize {
    fn vx_min(self, o: usize) -> (r: usize) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } }
    fn vx_max(self, o: usize) -> (r: usize) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } }
    fn vx_saturating_sub(self, o: usize) -> (r: usize) ensures r == (if self >= o { self - o } else { 0 }) { if self >= o { self - o } else { 0 } }
}
// ---------------------------------------------------------------- prettytable
#[derive(Clone, Copy)]
pub enum LinePosition { Top, Title, Intern, Bottom }
pub struct LineSeparator { pub line: char, pub junc: char, pub left: char, pub right: char }
impl LineSeparator {
    pub fn new(a: char, b: char, c: char, d: char) -> (r: LineSeparator) ensures r == sep(a, b, c, d) { LineSeparator { line: a, junc: b, left: c, right: d } }
}
#[verifier::external_body]
pub struct TableFormat { p: u8 }
impl TableFormat {
    pub uninterp spec fn style(&self) -> Style;
    #[verifier::external_body]
    pub fn padding(&mut self, l: usize, r: usize) ensures final(self).style() == (Style { left: l as int, right: r as int, ..old(self).style() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn borders(&mut self, c: char) ensures final(self).style() == (Style { border: c, ..old(self).style() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn column_separator(&mut self, c: char) ensures final(self).style() == (Style { column: c, ..old(self).style() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn separator(&mut self, p: LinePosition, s: LineSeparator)
        ensures final(self).style() == (match p {
            LinePosition::Top => Style { top: s, ..old(self).style() },
            LinePosition::Title => Style { title: s, ..old(self).style() },
            LinePosition::Intern => Style { intern: s, ..old(self).style() },
            LinePosition::Bottom => Style { bottom: s, ..old(self).style() },
        })
    { unimplemented!() }
}
pub struct Cell { pub text: String }
impl Cell {
    #[verifier::external_body]
    pub fn new<S: VxStr + ?Sized>(s: &S) -> (r: Cell) ensures r.text@ == s.txt() { unimplemented!() }
}
#[verifier::external_body]
pub struct Row { p: u8 }
pub open spec fn cell_texts(s: Seq<Cell>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].text@) }
impl Row {
    pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn new(v: Vec<Cell>) -> (r: Row) ensures r@ == cell_texts(v@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_row2(a: String, b: String) -> (r: Row) ensures r@ == seq![a@, b@] { unimplemented!() }
#[verifier::external_body]
pub fn vx_row3(a: String, b: String, c: String) -> (r: Row) ensures r@ == seq![a@, b@, c@] { unimplemented!() }
#[verifier::external_body]
pub struct Table { p: u8 }
impl Table {
    pub uninterp spec fn rows(&self) -> Seq<Seq<Seq<char>>>;
    pub uninterp spec fn style(&self) -> Style;
    #[verifier::external_body]
    pub fn new() -> (r: Table) ensures r.rows() == Seq::<Seq<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_format(&mut self) -> (r: &mut TableFormat)
        ensures r.style() == old(self).style(), final(self).rows() == old(self).rows(), final(self).style() == final(r).style(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_row(&mut self, r: Row) ensures final(self).rows() == old(self).rows().push(r@), final(self).style() == old(self).style() { unimplemented!() }
}
impl VxToString for Table {
    open spec fn shown(&self) -> Seq<char> { table(self.rows(), self.style()) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxToString for Builtin {
    open spec fn shown(&self) -> Seq<char> { builtin_name(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
}
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axs::ax_lines, axs::ax_first, ax::ax_string_len, axd::ax_display, axd::lemma_more, axd::lemma_none, axd::lemma_cells, axd::lemma_no_cells, fmt::ax_wide};
pub proof fn lemma_room(c: Seq<Seq<char>>, x: Seq<char>)
    ensures room(c.push(x)) == room(c) + head(x) + 1, room(c) >= 1, head(x) <= bl(x),
    decreases c.len(),
{
    assert(c.push(x).drop_last() =~= c);
    if c.len() > 0 { lemma_room(c.drop_last(), c.last()); assert(c.drop_last().push(c.last()) =~= c); }
}
//@ end
//@ file src/expr.rs
//@ fn Builtin::fmt@Debug name=fmt_debug
    ensures r is Ok ==> final($1)@ =~= old($1)@ + builtin_name(*$0), old($1).open() ==> r is Ok && final($1).open(),
//@ fn Builtin::fmt@Display name=fmt_display
    ensures r is Ok ==> final($1)@ =~= old($1)@ + builtin_name(*$0), old($1).open() ==> r is Ok && final($1).open(),
//@ fn Expression::fmt@Debug name=fmt_debug loops=4
    ensures r is Ok ==> final($1)@ =~= old($1)@ + written(*$0), old($1).open() ==> r is Ok && final($1).open(),
//@ loop 0
    invariant vx_out1@.len() + vx_it1@.len() == exprs@.len(), strings(vx_out1@) == all_written(*exprs, vx_out1@.len()),
        forall|i: int| 0 <= i < vx_it1@.len() ==> *(#[trigger] vx_it1@[i]) == exprs@[vx_out1@.len() + i],
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop 1
    invariant vx_out2@.len() + vx_it2@.len() == exprs.ents().len(), strings(vx_out2@) == map_written(*exprs, vx_out2@.len()),
        forall|i: int| 0 <= i < vx_it2@.len() ==> *(#[trigger] vx_it2@[i]).0 == exprs.ents()[vx_out2@.len() + i].0 && *vx_it2@[i].1 == exprs.ents()[vx_out2@.len() + i].1,
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ loop 2
    invariant vx_out3@.len() + vx_it3@.len() == exprs@.len(), strings(vx_out3@) == all_written(*exprs, vx_out3@.len()),
        forall|i: int| 0 <= i < vx_it3@.len() ==> *(#[trigger] vx_it3@[i]) == exprs@[vx_out3@.len() + i],
    ensures vx_it3@.len() == 0,
    decreases vx_it3@.len(),
//@ loop 3
    invariant vx_out4@.len() + vx_it4@.len() == args@.len(), strings(vx_out4@) == all_written(*args, vx_out4@.len()),
        forall|i: int| 0 <= i < vx_it4@.len() ==> *(#[trigger] vx_it4@[i]) == args@[vx_out4@.len() + i],
    ensures vx_it4@.len() == 0,
    decreases vx_it4@.len(),
//@ fn Expression::fmt@Display name=fmt_display loops=5
    ensures r is Ok ==> final($1)@ =~= old($1)@ + pictured(*$0, match old($1).wide() { Some(n) => n as int, None => columns() }), old($1).open() ==> r is Ok && final($1).open(),
//@ loop 0
    invariant row@.len() + vx_it1@.len() == exprs@.len(), strings(row@) == cells(*exprs, row@.len()), total_len == room(strings(row@)),
        total_len <= held(row@), forall|i: int| 0 <= i < vx_it1@.len() ==> *(#[trigger] vx_it1@[i]) == exprs@[row@.len() + i],
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ after_let formatted 0
    proof { assert(formatted@ == cell(*expr)); axd::ax_held(row@.push(formatted)); assert(row@.push(formatted).drop_last() =~= row@); lemma_room(strings(row@), formatted@); }
//@ after_let row 0
    let ghost mut gcells: Seq<Seq<char>> = Seq::empty();
//@ before_loop 1
    proof { gcells = strings(row@); }
//@ loop 1
    invariant vx_out1@.len() + vx_it2@.len() == gcells.len(), cell_texts(vx_out1@) == gcells.take(vx_out1@.len() as int), strings(vx_it2@) == gcells.skip(vx_out1@.len() as int),
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ loop_start 1
    let ghost gk = vx_out1@.len() as int; let ghost gv = vx_it2@;
    proof {
        if gv.len() > 0 { assert(strings(gv)[0] == gcells[gk]); assert(strings(gv.skip(1)) =~= strings(gv).skip(1)); assert(gcells.skip(gk).skip(1) =~= gcells.skip(gk + 1)); assert(gcells.take(gk + 1) =~= gcells.take(gk).push(gcells[gk])); }
    }
//@ after_loop 1
    proof { assert(gcells.take(gcells.len() as int) =~= gcells); }
//@ loop 2
    invariant t.style() == map_style(), t.rows().len() + vx_it3@.len() == exprs.ents().len(), t.rows() == table_rows(*exprs, t.rows().len(), specified_width as int),
        forall|i: int| 0 <= i < vx_it3@.len() ==> *(#[trigger] vx_it3@[i]).0 == exprs.ents()[t.rows().len() + i].0 && *vx_it3@[i].1 == exprs.ents()[t.rows().len() + i].1,
    ensures vx_it3@.len() == 0,
    decreases vx_it3@.len(),
//@ loop_start 2
    let ghost gn = t.rows().len();
    proof { if vx_it3@.len() > 0 { assert(row_of(exprs.ents()[gn as int].0@, exprs.ents()[gn as int].1, specified_width as int).len() >= 2); } }
//@ loop 3
    invariant vx_out2@.len() + vx_it4@.len() == exprs@.len(), strings(vx_out2@) == all_written(*exprs, vx_out2@.len()),
        forall|i: int| 0 <= i < vx_it4@.len() ==> *(#[trigger] vx_it4@[i]) == exprs@[vx_out2@.len() + i],
    ensures vx_it4@.len() == 0,
    decreases vx_it4@.len(),
//@ loop 4
    invariant vx_out3@.len() + vx_it5@.len() == args@.len(), strings(vx_out3@) == all_written(*args, vx_out3@.len()),
        forall|i: int| 0 <= i < vx_it5@.len() ==> *(#[trigger] vx_it5@[i]) == args@[vx_out3@.len() + i],
    ensures vx_it5@.len() == 0,
    decreases vx_it5@.len(),
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
