//@ include pre.vspec
//@ include text.vspec
//@ raw
verus! {
broadcast use sk::lemma_skip_skip;
#[derive(Clone, Copy)]
pub struct NotFoundError;
/// an error made by nom's parsers at an input
pub trait VxErrIn<E> {
    spec fn good(&self) -> bool;
    spec fn fits(&self, e: E) -> bool;
    fn vx_err_at(&self) -> (r: E)
        requires self.good(),
        ensures self.fits(r);
}
pub fn vx_err_at<I: VxErrIn<E>, E>(i: &I) -> (r: E)
    requires i.good(),
    ensures i.fits(r),
{ i.vx_err_at() }
impl<'a> VxErrIn<NotFoundError> for Input<'a> {
    open spec fn good(&self) -> bool { true }
    open spec fn fits(&self, e: NotFoundError) -> bool { true }
    fn vx_err_at(&self) -> NotFoundError { NotFoundError }
}
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == is_digit(*c);
pub assume_specification [char::is_ascii_hexdigit] (c: &char) -> (r: bool) ensures r == is_hex(*c);
pub assume_specification [char::is_ascii_whitespace] (c: &char) -> (r: bool) ensures r == is_ws(*c);
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == ((*c as u32) < 0x80);
pub assume_specification<T, A: core::alloc::Allocator> [std::vec::Vec::<T, A>::into_boxed_slice] (v: std::vec::Vec<T, A>) -> (r: std::boxed::Box<[T], A>)
    ensures r@ == v@;
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn is_hex(c: char) -> bool { is_digit(c) || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub open spec fn is_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0C' }
pub open spec fn is_sym(c: char) -> bool {
    'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' || c == '_' || c == '+' || c == '-' || c == '.' || c == '~'
    || c == '\\' || c == '/' || c == '?' || c == '&' || c == '<' || c == '>' || c == '$' || c == '%' || c == '#' || c == '^' || c == ':'
}
pub open spec fn hexv(c: char) -> nat {
    if is_digit(c) { (c as u32 - '0' as u32) as nat } else if 'a' <= c <= 'f' { (c as u32 - 'a' as u32 + 10) as nat } else { (c as u32 - 'A' as u32 + 10) as nat }
}
#[verifier::opaque]
pub open spec fn hexval(s: Seq<char>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { hexval(s.drop_last()) * 16 + hexv(s.last()) } }
pub open spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
#[verifier::external_body]
pub fn vx_u32_from_str_radix(s: &str, radix: u32) -> (r: Result<u32, ()>)
    ensures radix == 16 && 1 <= s@.len() <= 7 && all_hex(s@) ==> r is Ok && r->Ok_0 == hexval(s@),
{ unimplemented!() }
pub open spec fn is_scalar(n: nat) -> bool { n < 0xD800 || 0xE000 <= n <= 0x10FFFF }
#[verifier::external_body]
pub fn vx_char_try_from(n: u32) -> (r: Result<char, ()>)
    ensures r is Ok <==> is_scalar(n as nat),
{ unimplemented!() }

// ---------------------------------------------------------------- inputs
impl<'a> Input<'a> {
    /// the remaining input starts on a character boundary
    pub open spec fn ok(self) -> bool { boundary(self.str@, self.offset as nat) }
    pub open spec fn k(self) -> int { cix(self.str@, self.offset as nat) }
    pub open spec fn rest(self) -> Seq<char> { self.str@.skip(self.k()) }
    // the dereference to str, made explicit
    pub fn len(&self) -> (r: usize)
        requires self.ok(),
        ensures r == bl(self.rest()),
    { vx_str_len(self.deref()) }
    pub fn vx_chars(&self) -> (r: VxIt<char>)
        requires self.ok(),
        ensures r@ == self.rest(),
    { self.deref().vx_chars() }
    #[verifier::external_body]
    pub fn starts_with(&self, p: &str) -> (r: bool)
        requires self.ok(),
        ensures r == starts(self.rest(), p@),
    { unimplemented!() }
}
/// nom::combinator::eof
@{!P01,P02,P03,R02}pub fn eof<'a>(i: Input<'a>) -> (r: core::result::Result<(Input<'a>, Input<'a>), nom::Err<NotFoundError>>)
@{!P01,P02,P03,R02}    requires i.ok(),
@{!P01,P02,P03,R02}    ensures match r { Ok((b, _)) => b == i && i.rest().len() == 0, Err(e) => e is Error && i.rest().len() > 0 },
@{!P01,P02,P03,R02}{ if i.is_empty() { Ok((i, i)) } else { Err(nom::Err::Error(NotFoundError)) } }
/// `b` continues `a` (same text, `n` characters further) and `s` is the text in between
pub open spec fn adv(a: Input, b: Input, s: StrSlice, n: int) -> bool {
    &&& b.str == a.str && b.ok() && 0 <= n <= a.rest().len() && b.k() == a.k() + n
    &&& s.start == a.offset && s.end == b.offset
    &&& b.rest() == a.rest().skip(n)
    &&& n > 0 ==> bl(b.rest()) < bl(a.rest())
    &&& a.offset <= b.offset
}
pub type TR<'a> = core::result::Result<(Input<'a>, StrSlice), nom::Err<NotFoundError>>;
/// outcome of a token rule: `w` is the number of characters it matches, None if it does not apply
pub open spec fn got(a: Input, r: TR, w: Option<nat>) -> bool {
    match r {
        Ok((b, s)) => w is Some && adv(a, b, s, w->0 as int),
        Err(e) => e is Error && w is None,
    }
}
pub open spec fn inp_adv(a: Input, b: Input, n: int) -> bool {
    b.str == a.str && b.ok() && 0 <= n <= a.rest().len() && b.k() == a.k() + n && b.rest() == a.rest().skip(n) && a.offset <= b.offset
}
pub type TD<'a> = core::result::Result<(Input<'a>, (Token, Diagnostic)), nom::Err<NotFoundError>>;
pub open spec fn safe_tok(a: Input, r: TD) -> bool {
    match r {
        Ok((b, (t, d))) => b.k() > a.k() && adv(a, b, t.range, b.k() - a.k())
@{H01,R02}            && diag_in(a.str@, t.range, d)
        ,
        Err(e) => e is Error,
    }
}
/// a flagged escape lies inside the text from `a` to `b`, on character boundaries
pub open spec fn piece(s: Seq<char>, x: StrSlice, a: int, b: int) -> bool {
    a <= x.start <= x.end <= b && boundary(s, x.start as nat) && boundary(s, x.end as nat)
}
pub open spec fn pieces(s: Seq<char>, rs: Seq<StrSlice>, a: int, b: int) -> bool {
    &&& forall|i: int| 0 <= i < rs.len() ==> piece(s, #[trigger] rs[i], a, b)
    &&& forall|i: int, j: int| 0 <= i < rs.len() && j == i + 1 && j < rs.len() ==> (#[trigger] rs[i]).end <= (#[trigger] rs[j]).start
}
/// what a diagnostic points at: the token itself, or parts of it in order
pub open spec fn diag_in(s: Seq<char>, r: StrSlice, d: Diagnostic) -> bool {
    match d {
        Diagnostic::Valid => true,
        Diagnostic::InvalidNumber(e) => e == r,
        Diagnostic::IllegalChar(e) => e == r,
        Diagnostic::InvalidStringEscapes(rs) => pieces(s, rs@, r.start as int, r.end as int),
        Diagnostic::NotTokenized(_) => false,
    }
}
pub open spec fn got_tok(a: Input, r: TD, w: Option<(nat, TokenKind, bool)>) -> bool {
    match r {
        Ok((b, (t, d))) => w is Some && adv(a, b, t.range, (w->0).0 as int) && t.kind == (w->0).1 && (!(d is Valid) <==> (w->0).2),
        Err(e) => e is Error && w is None,
    }
}
pub proof fn reveal_lits()
    ensures "to"@.len() > 0, "=="@.len() > 0, "!="@.len() > 0, ">="@.len() > 0, "<="@.len() > 0, "&&"@.len() > 0, "||"@.len() > 0, "//"@.len() > 0, "<<"@.len() > 0, ">>"@.len() > 0, ">>>"@.len() > 0, "("@.len() > 0, ")"@.len() > 0, "["@.len() > 0, "]"@.len() > 0, "{"@.len() > 0, "}"@.len() > 0, "\'"@.len() > 0, ","@.len() > 0, ";"@.len() > 0, "="@.len() > 0, "->"@.len() > 0, "~>"@.len() > 0, "None"@.len() > 0, "then"@.len() > 0, "else"@.len() > 0, "let"@.len() > 0, "for"@.len() > 0, "if"@.len() > 0, "in"@.len() > 0, "<"@.len() > 0, ">"@.len() > 0, "+"@.len() > 0, "-"@.len() > 0, "*"@.len() > 0, "%"@.len() > 0, "|"@.len() > 0, "@"@.len() > 0, "!"@.len() > 0, "True"@.len() > 0, "False"@.len() > 0
{ reveal_strlit("to"); reveal_strlit("=="); reveal_strlit("!="); reveal_strlit(">="); reveal_strlit("<="); reveal_strlit("&&"); reveal_strlit("||"); reveal_strlit("//"); reveal_strlit("<<"); reveal_strlit(">>"); reveal_strlit(">>>"); reveal_strlit("("); reveal_strlit(")"); reveal_strlit("["); reveal_strlit("]"); reveal_strlit("{"); reveal_strlit("}"); reveal_strlit("\'"); reveal_strlit(","); reveal_strlit(";"); reveal_strlit("="); reveal_strlit("->"); reveal_strlit("~>"); reveal_strlit("None"); reveal_strlit("then"); reveal_strlit("else"); reveal_strlit("let"); reveal_strlit("for"); reveal_strlit("if"); reveal_strlit("in"); reveal_strlit("<"); reveal_strlit(">"); reveal_strlit("+"); reveal_strlit("-"); reveal_strlit("*"); reveal_strlit("%"); reveal_strlit("|"); reveal_strlit("@"); reveal_strlit("!"); reveal_strlit("True"); reveal_strlit("False"); }
/// some non-empty piece, or no match
pub open spec fn safe(a: Input, r: TR) -> bool {
    match r {
        Ok((b, s)) => b.k() > a.k() && adv(a, b, s, b.k() - a.k()),
        Err(e) => e is Error,
    }
}
pub proof fn lemma_ok(i: Input)
    requires i.ok(),
    ensures at(i.str@, i.offset as nat, i.k()), bl(i.rest()) + i.offset == bl(i.str@), i.rest().len() == i.str@.len() - i.k(),
        bl(i.str@) <= isize::MAX,
{
    broadcast use axt::ax_strbox_len;
    lemma_bl_take(i.str@, i.k(), i.k());
}
pub proof fn lemma_adv(a: Input, b: Input, n: int)
    requires a.ok(), b.str == a.str, 0 <= n <= a.rest().len(), b.offset == a.offset + bl(a.rest().take(n)),
    ensures b.ok(), b.k() == a.k() + n, b.rest() == a.rest().skip(n), b.offset <= bl(b.str@), n > 0 ==> b.offset > a.offset,
        n > 0 ==> bl(b.rest()) < bl(a.rest()),
{
    let s = a.str@;
    lemma_ok(a);
    lemma_bl_take(s, a.k(), a.k() + n);
    assert(s.subrange(a.k(), a.k() + n) =~= a.rest().take(n));
    assert(at(s, b.offset as nat, a.k() + n));
    lemma_at_unique(s, b.offset as nat, a.k() + n);
    lemma_bl_pos(a.rest().take(n));
    assert(b.rest() =~= a.rest().skip(n));
    lemma_ok(b);
}
pub proof fn lemma_starts_lits()
    ensures forall|s: Seq<char>| #[trigger] starts(s, "-"@) == (s.len() > 0 && s[0] == '-'),
        forall|s: Seq<char>| #[trigger] starts(s, "0"@) == (s.len() > 0 && s[0] == '0'),
        forall|s: Seq<char>| #[trigger] starts(s, "."@) == (s.len() > 0 && s[0] == '.'),
{
    reveal_strlit("-"); reveal_strlit("0"); reveal_strlit(".");
    assert forall|s: Seq<char>| #[trigger] starts(s, "-"@) == (s.len() > 0 && s[0] == '-') by { if s.len() > 0 && s[0] == '-' { assert(s[0] == "-"@[0]); } else if s.len() > 0 { assert(s[0] != "-"@[0]); } }
    assert forall|s: Seq<char>| #[trigger] starts(s, "0"@) == (s.len() > 0 && s[0] == '0') by { if s.len() > 0 && s[0] == '0' { assert(s[0] == "0"@[0]); } else if s.len() > 0 { assert(s[0] != "0"@[0]); } }
    assert forall|s: Seq<char>| #[trigger] starts(s, "."@) == (s.len() > 0 && s[0] == '.') by { if s.len() > 0 && s[0] == '.' { assert(s[0] == "."@[0]); } else if s.len() > 0 { assert(s[0] != "."@[0]); } }
}
/// the byte length determines the number of characters taken
pub proof fn lemma_take_unique(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len(), bl(s.take(i)) == bl(s.take(j)),
    ensures i == j,
{
    lemma_at_unique(s, bl(s.take(i)), i);
    lemma_at_unique(s, bl(s.take(i)), j);
}

// ---------------------------------------------------------------- the lexical grammar
pub open spec fn s_pfx(s: Seq<char>, p: Seq<char>) -> Option<nat> { if starts(s, p) { Some(p.len()) } else { None } }
pub open spec fn s_word(s: Seq<char>, p: Seq<char>) -> Option<nat> {
    if starts(s, p) && !(s.len() > p.len() && is_sym(s[p.len() as int])) { Some(p.len()) } else { None }
}
pub open spec fn or(a: Option<nat>, b: Option<nat>) -> Option<nat> { if a is Some { a } else { b } }
#[verifier::opaque]
pub open spec fn run(s: Seq<char>, p: spec_fn(char) -> bool) -> nat
    decreases s.len(),
{ if s.len() > 0 && p(s[0]) { 1 + run(s.skip(1), p) } else { 0 } }
pub open spec fn some_run(s: Seq<char>, p: spec_fn(char) -> bool) -> Option<nat> { if run(s, p) > 0 { Some(run(s, p)) } else { None } }
pub proof fn lemma_run(s: Seq<char>, p: spec_fn(char) -> bool, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n ==> p(#[trigger] s[i]), n < s.len() ==> !p(s[n as int]),
    ensures run(s, p) == n,
    decreases n,
{
    reveal(run);
    if n > 0 {
        assert(p(s[0]));
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < n - 1 implies p(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
        lemma_run(t, p, (n - 1) as nat);
    }
}
pub open spec fn f_digit() -> spec_fn(char) -> bool { |c: char| is_digit(c) }
pub open spec fn f_sym() -> spec_fn(char) -> bool { |c: char| is_sym(c) }
pub open spec fn f_ws() -> spec_fn(char) -> bool { |c: char| is_ws(c) }
pub open spec fn f_line() -> spec_fn(char) -> bool { |c: char| c != '\r' && c != '\n' }

pub open spec fn s_long_op(s: Seq<char>) -> Option<nat> {
    or(s_word(s, "to"@), or(s_word(s, "=="@), or(s_word(s, "!="@), or(s_word(s, ">="@), or(s_word(s, "<="@), or(s_word(s, "&&"@),
    or(s_word(s, "||"@), or(s_word(s, "//"@), or(s_word(s, "<<"@), or(s_word(s, ">>"@), s_word(s, ">>>"@)))))))))))
}
pub open spec fn s_punct(s: Seq<char>) -> Option<nat> {
    or(s_pfx(s, "("@), or(s_pfx(s, ")"@), or(s_pfx(s, "["@), or(s_pfx(s, "]"@), or(s_pfx(s, "{"@), or(s_pfx(s, "}"@),
    or(s_pfx(s, "\'"@), or(s_pfx(s, ","@), or(s_pfx(s, ";"@), or(s_pfx(s, "="@), or(s_word(s, "->"@), s_word(s, "~>"@))))))))))))
}
pub open spec fn s_keyword(s: Seq<char>) -> Option<nat> {
    or(s_word(s, "None"@), or(s_word(s, "then"@), or(s_word(s, "else"@), or(s_word(s, "let"@), or(s_word(s, "for"@), or(s_word(s, "if"@), s_word(s, "in"@)))))))
}
pub open spec fn s_short_op(s: Seq<char>) -> Option<nat> {
    or(s_word(s, "<"@), or(s_word(s, ">"@), or(s_word(s, "+"@), or(s_word(s, "-"@), or(s_word(s, "*"@), or(s_word(s, "%"@),
    or(s_word(s, "|"@), or(s_pfx(s, "@"@), s_pfx(s, "!"@)))))))))
}
pub open spec fn s_bool(s: Seq<char>) -> Option<nat> { or(s_word(s, "True"@), s_word(s, "False"@)) }
pub open spec fn s_comment(s: Seq<char>) -> Option<nat> { if s.len() > 0 && s[0] == '#' { Some(run(s, f_line())) } else { None } }
/// number of characters and kind and whether it is malformed
pub open spec fn s_number(s: Seq<char>) -> Option<(nat, TokenKind, bool)> {
    let sign: nat = if starts(s, "-"@) { 1 } else { 0 };
    let t = s.skip(sign as int);
    let whole: nat = if starts(t, "0"@) { 1 } else { run(t, f_digit()) };
    if whole == 0 { None } else {
        let u = t.skip(whole as int);
        if !starts(u, "."@) { Some((sign + whole, TokenKind::IntegerLiteral, false)) } else {
            let frac = run(u.skip(1), f_digit());
            Some((sign + whole + 1 + frac, TokenKind::FloatLiteral, frac == 0))
        }
    }
}
/// one escape sequence starting at a backslash: characters and whether it is bad
pub open spec fn simple_escape(c: char) -> bool { c == '"' || c == '\\' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't' }
#[verifier::opaque]
pub open spec fn hexrun(s: Seq<char>, m: nat) -> nat
    decreases m,
{ if m > 0 && s.len() > 0 && is_hex(s[0]) { 1 + hexrun(s.skip(1), (m - 1) as nat) } else { 0 } }
pub open spec fn s_escape(s: Seq<char>) -> (nat, bool) {
    if s.len() < 2 { (1, true) }
    else if simple_escape(s[1]) { (2, false) }
    else {
        let h = hexrun(s.skip(3), 5);
        if s.len() >= 3 && s[1] == 'u' && s[2] == '{' && h > 0 {
            if !is_scalar(hexval(s.subrange(3, 3 + h as int))) { (3 + h, true) }
            else if s.len() > 3 + h && s[3 + h as int] == '}' { (4 + h, false) }
            else { (3 + h, true) }
        } else { (2, true) }
    }
}
/// text of a string literal after the opening quote: characters up to (not including) the closing quote, bad escape seen
#[verifier::opaque]
pub open spec fn s_inner(s: Seq<char>) -> (nat, bool)
    decreases s.len(),
    via s_inner_dec
{
    if s.len() == 0 || s[0] == '"' { (0, false) }
    else if s[0] == '\\' {
        let (n, bad) = s_escape(s);
        let (m, b) = s_inner(s.skip(n as int));
        (n + m, bad || b)
    } else {
        let (m, b) = s_inner(s.skip(1));
        (1 + m, b)
    }
}
pub proof fn lemma_hexrun(s: Seq<char>, m: nat)
    ensures hexrun(s, m) <= m, hexrun(s, m) <= s.len(), forall|i: int| 0 <= i < hexrun(s, m) ==> is_hex(#[trigger] s[i]),
        hexrun(s, m) < m && hexrun(s, m) < s.len() ==> !is_hex(s[hexrun(s, m) as int]),
    decreases m,
{
    reveal(hexrun);
    if m > 0 && s.len() > 0 && is_hex(s[0]) {
        let t = s.skip(1);
        lemma_hexrun(t, (m - 1) as nat);
        assert forall|i: int| 0 <= i < hexrun(s, m) implies is_hex(#[trigger] s[i]) by { if i > 0 { assert(s[i] == t[i - 1]); } }
        if hexrun(s, m) < s.len() { assert(s[hexrun(s, m) as int] == t[hexrun(t, (m - 1) as nat) as int]); }
    }
}
pub proof fn lemma_hexrun_is(s: Seq<char>, m: nat, n: nat)
    requires n <= m, n <= s.len(), forall|i: int| 0 <= i < n ==> is_hex(#[trigger] s[i]), n < m && n < s.len() ==> !is_hex(s[n as int]),
    ensures hexrun(s, m) == n,
    decreases m,
{
    reveal(hexrun);
    if n > 0 {
        let t = s.skip(1);
        assert(is_hex(s[0]));
        assert forall|i: int| 0 <= i < n - 1 implies is_hex(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
        lemma_hexrun_is(t, (m - 1) as nat, (n - 1) as nat);
    }
}
pub proof fn lemma_first(s: Seq<char>)
    ensures bl(s.take(0)) == 0, s.skip(0) =~= s, s.len() > 0 ==> bl(s.take(1)) == cl(s[0]),
{
    reveal(bl);
    assert(s.take(0) =~= Seq::<char>::empty());
    if s.len() > 0 { lemma_bl_step(s, 0); }
}
pub proof fn lemma_escape(s: Seq<char>)
    requires s.len() > 0,
    ensures 1 <= s_escape(s).0 <= s.len(),
{ if s.len() >= 3 { lemma_hexrun(s.skip(3), 5); } }
#[via_fn]
proof fn s_inner_dec(s: Seq<char>) {
    if s.len() > 0 { lemma_escape(s); }
}
pub proof fn lemma_inner(s: Seq<char>)
    ensures s_inner(s).0 <= s.len(), s_inner(s).0 < s.len() ==> s[s_inner(s).0 as int] == '"',
    decreases s.len(),
{
    reveal(s_inner);
    if s.len() == 0 || s[0] == '"' { }
    else {
        let n: int = if s[0] == '\\' { lemma_escape(s); s_escape(s).0 as int } else { 1 };
        lemma_inner(s.skip(n));
    }
}
/// a string literal: characters and whether it is flagged
pub open spec fn s_string(s: Seq<char>) -> Option<(nat, bool)> {
    if s.len() > 0 && s[0] == '"' {
        let (m, b) = s_inner(s.skip(1));
        Some((if 1 + m < s.len() { m + 2 } else { m + 1 }, b))
    } else { None }
}
pub open spec fn starts_quote(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '"' }
pub open spec fn string_tok(s: Seq<char>) -> Option<(nat, TokenKind, bool)> {
    match s_string(s) { Some((n, b)) => Some((n, TokenKind::StringLiteral, b)), None => None }
}
/// the rules tried before string literals
pub open spec fn s_before(s: Seq<char>) -> Option<(nat, TokenKind, bool)> {
    if s_long_op(s) is Some { Some((s_long_op(s)->0, TokenKind::Operator, false)) }
    else if s_punct(s) is Some { Some((s_punct(s)->0, TokenKind::Punctuation, false)) }
    else if s_keyword(s) is Some { Some((s_keyword(s)->0, TokenKind::Keyword, false)) }
    else if s_short_op(s) is Some { Some((s_short_op(s)->0, TokenKind::Operator, false)) }
    else if s_bool(s) is Some { Some((s_bool(s)->0, TokenKind::BooleanLiteral, false)) }
    else if s_comment(s) is Some { Some((s_comment(s)->0, TokenKind::Comment, false)) }
    else { None }
}
/// the rules tried after string literals
pub open spec fn s_after(s: Seq<char>) -> (nat, TokenKind, bool) {
    if s_number(s) is Some { s_number(s)->0 }
    else if some_run(s, f_sym()) is Some { (some_run(s, f_sym())->0, TokenKind::Symbol, false) }
    else if some_run(s, f_ws()) is Some { (some_run(s, f_ws())->0, TokenKind::Whitespace, false) }
    else { (1, TokenKind::Symbol, true) }
}
/// token kind and extent by the first matching rule (the extent of string literals is property T03)
pub open spec fn tok_kind(a: Input, r: TD) -> bool {
    if s_before(a.rest()) is Some { got_tok(a, r, s_before(a.rest())) }
    else if starts_quote(a.rest()) { r is Ok && (r->Ok_0).1.0.kind == TokenKind::StringLiteral && safe_tok(a, r) }
    else { got_tok(a, r, Some(s_after(a.rest()))) }
}
} // verus!
//@ end
//@ file src/tokenizer.rs
//@ raw
verus! {
//@ end
//@ consts NOT_FOUND
//@ types Diagnostic TokenizationResult
//@ file src/tokens.rs
//@ types Input:Clone,Copy TokenKind:Clone,Copy,PartialEq,Eq,Structural Token:Clone,Copy,PartialEq,Eq,Structural

//@ fn Input::deref@Deref name=deref strslice
    requires $0.ok(),
    ensures r@ == $0.rest(),
//@ fn Input::new
    ensures r.str == $0, r.offset == 0, r.ok(), r.rest() == $0@, r.k() == 0,
//@ entry
    proof { lemma_at_ends($0@); lemma_at_unique($0@, 0, 0); assert($0@.skip(0) =~= $0@); }
//@ fn Input::input_len@InputLength name=input_len
    requires $0.ok(),
    ensures r == bl($0.rest()),
//@ fn Input::is_empty
    requires $0.ok(),
    ensures r == ($0.rest().len() == 0),
//@ entry
    proof { reveal(bl); lemma_ok($0); lemma_bl_pos($0.rest()); assert($0.rest().len() == 0 ==> $0.rest() =~= Seq::<char>::empty()); }
//@ assume Input::as_original_str
    ensures r@ == $0.str@,
//@ fn Input::as_str_slice
    requires $0.ok(),
    ensures r.start == $0.offset, r.end == bl($0.str@),
//@ entry
    proof { lemma_ok($0); }
//@ fn Input::split_empty
    requires $0.ok(),
    ensures r.start == $0.offset, r.end == $0.offset,
//@ entry
    proof { lemma_ok($0); }
//@ fn Input::split_at
    requires $0.ok(), exists|xn: int| 0 <= xn <= $0.rest().len() && #[trigger] bl($0.rest().take(xn)) == $1,
    ensures forall|xn: int| 0 <= xn <= $0.rest().len() && #[trigger] bl($0.rest().take(xn)) == $1 ==> adv($0, r.0, r.1, xn),
//@ entry
    proof {
        let xm = choose|xn: int| 0 <= xn <= $0.rest().len() && #[trigger] bl($0.rest().take(xn)) == $1;
        lemma_ok($0);
        lemma_bl_take($0.rest(), xm, xm);
        let b = Input { str: $0.str, offset: ($0.offset + $1) as usize };
        lemma_adv($0, b, xm);
        assert forall|xn: int| 0 <= xn <= $0.rest().len() && #[trigger] bl($0.rest().take(xn)) == $1 implies xn == xm by {
            lemma_take_unique($0.rest(), xn, xm);
        }
    }
//@ fn Input::split_until
    requires $0.ok(), $1.ok(), $0.str == $1.str, $0.k() <= $1.k(),
    ensures adv($0, r.0, r.1, $1.k() - $0.k()), r.0.offset == $1.offset,
//@ entry
    proof {
        lemma_ok($0); lemma_ok($1);
        lemma_bl_take($0.str@, $0.k(), $1.k());
        assert($0.str@.subrange($0.k(), $1.k()) =~= $0.rest().take($1.k() - $0.k()));
    }
//@ fn Input::strip_prefix strlen
    requires $0.ok(),
    ensures r is Some <==> starts($0.rest(), $1@),
        r is Some ==> adv($0, (r->0).0, (r->0).1, $1@.len() as int),
//@ entry
    proof { assert(starts($0.rest(), $1@) ==> $0.rest().take($1@.len() as int) =~= $1@); assert(starts($0.rest(), $1@) ==> bl($0.rest().take($1@.len() as int)) == bl($1@)); }
//@ fn Token::new
    ensures r.kind == $0, r.range == $1,

//@ file src/tokenizer.rs
//@ fn is_symbol_char loops=1 nativecast keep=is_ascii
    ensures r == is_sym($0),
//@ loop 0
        invariant i <= 128, forall|j: int| 0 <= j < i ==> array[j] == is_sym(j as u8 as char),
        decreases 128 - i,
//@ fn keyword_tag
    requires $1.ok(),
    ensures got($1, r, s_word($1.rest(), $0@)),
//@ fn punctuation_tag
    requires $1.ok(),
    ensures got($1, r, s_pfx($1.rest(), $0@)),

//@ fn long_operator revealstr
    requires $0.ok(),
    ensures
@{T01,T03,H01}    safe($0, r),
@{T03}    starts_quote($0.rest()) ==> r is Err,
@{T02}    got($0, r, s_long_op($0.rest())),
//@ fn any_punctuation revealstr
    requires $0.ok(),
    ensures
@{T01,T03,H01}    safe($0, r),
@{T03}    starts_quote($0.rest()) ==> r is Err,
@{T02}    got($0, r, s_punct($0.rest())),
//@ fn any_keyword revealstr
    requires $0.ok(),
    ensures
@{T01,T03,H01}    safe($0, r),
@{T03}    starts_quote($0.rest()) ==> r is Err,
@{T02}    got($0, r, s_keyword($0.rest())),
//@ fn short_operator revealstr
    requires $0.ok(),
    ensures
@{T01,T03,H01}    safe($0, r),
@{T03}    starts_quote($0.rest()) ==> r is Err,
@{T02}    got($0, r, s_short_op($0.rest())),
//@ fn bool_literal revealstr
    requires $0.ok(),
    ensures
@{T01,T03,H01}    safe($0, r),
@{T03}    starts_quote($0.rest()) ==> r is Err,
@{T02}    got($0, r, s_bool($0.rest())),
//@ fn comment
    requires $0.ok(),
    ensures
@{T01,T03,H01}    safe($0, r),
@{T03}    starts_quote($0.rest()) ==> r is Err,
@{T02}    got($0, r, s_comment($0.rest())),
//@ entry
    proof { lemma_ok($0); }
//@ before_loop 0
        let ghost mut gn0: int = 0;
        let ghost gs0 = $0.rest();
        proof { assert(gs0.skip(0) =~= gs0); lemma_first(gs0); }
//@ loop 0
        invariant_except_break vx_it1@ == gs0.skip(gn0),
        invariant 0 <= gn0 <= gs0.len(), bl(gs0) <= usize::MAX, vx_out1 == bl(gs0.take(gn0)),
@{T02}            forall|i: int| 0 <= i < gn0 ==> f_line()(#[trigger] gs0[i]),
@{T02}        ensures gn0 < gs0.len() ==> !f_line()(gs0[gn0]),
@{T01,T03,H01}            gs0.len() > 0 && gs0[0] == '#',
@{T01,T03,H01}        ensures gn0 > 0,
        decreases gs0.len() - gn0,
//@ loop_start 0
        proof { if gn0 < gs0.len() { lemma_bl_step(gs0, gn0); } }
//@ loop_end 0
        proof { gn0 = gn0 + 1; }
//@ after_loop 0
@{T02}    proof { lemma_run(gs0, f_line(), gn0 as nat); }
    proof { lemma_bl_pos(gs0.take(gn0)); }
//@ fn symbol
    requires $0.ok(),
    ensures
@{T01,T03,H01}    safe($0, r),
@{T02}    got($0, r, some_run($0.rest(), f_sym())),
//@ entry
    proof { lemma_ok($0); }
//@ before_loop 0
        let ghost mut gn0: int = 0;
        let ghost gs0 = $0.rest();
        proof { assert(gs0.skip(0) =~= gs0); lemma_first(gs0); }
//@ loop 0
        invariant_except_break vx_it1@ == gs0.skip(gn0),
        invariant 0 <= gn0 <= gs0.len(), bl(gs0) <= usize::MAX, vx_out1 == bl(gs0.take(gn0)),
@{T02}            forall|i: int| 0 <= i < gn0 ==> f_sym()(#[trigger] gs0[i]),
@{T02}        ensures gn0 < gs0.len() ==> !f_sym()(gs0[gn0]),
        decreases gs0.len() - gn0,
//@ loop_start 0
        proof { if gn0 < gs0.len() { lemma_bl_step(gs0, gn0); } }
//@ loop_end 0
        proof { gn0 = gn0 + 1; }
//@ after_loop 0
@{T02}    proof { lemma_run(gs0, f_sym(), gn0 as nat); }
    proof { lemma_bl_pos(gs0.take(gn0)); }
//@ fn whitespace
    requires $0.ok(),
    ensures
@{T01,T03,H01}    safe($0, r),
@{T02}    got($0, r, some_run($0.rest(), f_ws())),
//@ entry
    proof { lemma_ok($0); }
//@ before_loop 0
        let ghost mut gn0: int = 0;
        let ghost gs0 = $0.rest();
        proof { assert(gs0.skip(0) =~= gs0); lemma_first(gs0); }
//@ loop 0
        invariant_except_break vx_it1@ == gs0.skip(gn0),
        invariant 0 <= gn0 <= gs0.len(), bl(gs0) <= usize::MAX, vx_out1 == gn0, bl(gs0.take(gn0)) == gn0,
@{T02}            forall|i: int| 0 <= i < gn0 ==> f_ws()(#[trigger] gs0[i]),
@{T02}        ensures gn0 < gs0.len() ==> !f_ws()(gs0[gn0]),
        decreases gs0.len() - gn0,
//@ loop_start 0
        proof { if gn0 < gs0.len() { lemma_bl_step(gs0, gn0); } }
//@ loop_end 0
        proof { gn0 = gn0 + 1; }
//@ after_loop 0
@{T02}    proof { lemma_run(gs0, f_ws(), gn0 as nat); }
    proof { lemma_bl_pos(gs0.take(gn0)); }
//@ fn parse_hex_digit
    requires $0.ok(),
    ensures match r { Ok((b, s)) => $0.rest().len() > 0 && is_hex($0.rest()[0]) && adv($0, b, s, 1),
        Err(e) => e is Error && !($0.rest().len() > 0 && is_hex($0.rest()[0])) },
//@ entry
    proof { lemma_first($0.rest()); }
//@ fn parse_escape revealstr
    requires $0.ok(), $0.rest().len() > 0, $0.rest()[0] == '\\',
    ensures
        r is Ok, (r->Ok_0).1 is Valid || (r->Ok_0).1 is InvalidStringEscapes,
        (r->Ok_0).1 is InvalidStringEscapes ==> (r->Ok_0).1->InvalidStringEscapes_0@.len() == 1,
@{T01,T02,H01}        (r->Ok_0).0.k() > $0.k(), inp_adv($0, (r->Ok_0).0, (r->Ok_0).0.k() - $0.k()),
@{H01}        diag_in($0.str@, sl($0.offset as int, (r->Ok_0).0.offset as int), (r->Ok_0).1),
@{T03}        inp_adv($0, (r->Ok_0).0, s_escape($0.rest()).0 as int), !((r->Ok_0).1 is Valid) <==> s_escape($0.rest()).1,
//@ entry
    proof { lemma_first($0.rest()); if $0.rest().len() > 1 { lemma_bl_step($0.rest(), 1); } }
//@ before_loop 0
    let ghost g0 = vx_cur1;
    proof { lemma_ok($0); lemma_ok(g0); assert(g0.rest().skip(0) =~= g0.rest()); }
//@ loop 0
    invariant_except_break vx_err1 is None,
    invariant g0.ok(), inp_adv(g0, vx_cur1, vx_count1 as int), 0 <= vx_count1 <= 5, g0.rest().len() >= vx_count1,
        forall|i: int| 0 <= i < vx_count1 ==> is_hex(#[trigger] g0.rest()[i]),
        vx_count1 == 0 <==> vx_acc1 is None, vx_count1 > 0 ==> (vx_acc1->0).start == g0.offset && (vx_acc1->0).end == vx_cur1.offset,
        vx_err1 is Some ==> vx_count1 < 1 && vx_err1->0 is Error,
    ensures vx_count1 < 5 && vx_count1 < g0.rest().len() ==> !is_hex(g0.rest()[vx_count1 as int]), vx_err1 is Some <==> vx_count1 < 1,
    decreases 5 - vx_count1,
//@ loop_start 0
    let ghost c0 = vx_cur1;
    proof { lemma_ok(vx_cur1); }
//@ after_loop 0
    proof { lemma_hexrun_is(g0.rest(), 5, vx_count1 as nat); lemma_ok(vx_cur1);
        assert($0.rest().subrange(3, 3 + vx_count1) =~= $0.str@.subrange(g0.k(), vx_cur1.k())); }
//@ fn parse_string_inner loops=1
    requires $0.ok(),
    ensures
        r is Ok, (r->Ok_0).1 is Valid || (r->Ok_0).1 is InvalidStringEscapes,
        (r->Ok_0).0.rest().len() > 0 ==> (r->Ok_0).0.rest()[0] == '"',
@{T01,T02,H01}        (r->Ok_0).0.k() >= $0.k(), inp_adv($0, (r->Ok_0).0, (r->Ok_0).0.k() - $0.k()),
@{H01}        diag_in($0.str@, sl($0.offset as int, (r->Ok_0).0.offset as int), (r->Ok_0).1),
@{T03}        inp_adv($0, (r->Ok_0).0, s_inner($0.rest()).0 as int), !((r->Ok_0).1 is Valid) <==> s_inner($0.rest()).1,
//@ after_loop 0
    proof { reveal(s_inner); }
//@ before_loop 0
    proof { reveal(s_inner); lemma_inner($0.rest()); assert($0.rest().skip(0) =~= $0.rest()); }
    let ghost mut gn: int = 0;
//@ loop 0
    invariant_except_break true,
    invariant $0.ok(), rest.ok(), inp_adv($0, rest, gn), gn >= 0,
@{H01}        pieces($0.str@, errors@, $0.offset as int, rest.offset as int),
@{T03}        s_inner($0.rest()).0 == gn + s_inner(rest.rest()).0, s_inner($0.rest()).1 == (errors@.len() > 0 || s_inner(rest.rest()).1),
    ensures rest.rest().len() > 0 ==> rest.rest()[0] == '"',
    decreases rest.rest().len(),
//@ loop_start 0
    let ghost r0 = rest;
    proof { reveal(s_inner); lemma_first(rest.rest()); lemma_ok(rest); if rest.rest().len() > 0 { lemma_bl_step(rest.rest(), 0); lemma_escape(rest.rest()); } lemma_inner(rest.rest()); assert(rest.rest().take(0) =~= Seq::<char>::empty()); assert(rest.rest().skip(0) =~= rest.rest()); }
//@ loop_end 0
    proof { gn = rest.k() - $0.k(); assert($0.rest().skip(gn) =~= rest.rest()); }
//@ fn string_literal revealstr
    requires $0.ok(),
    ensures
@{T01,T02,H01}    safe_tok($0, r),
@{T02}    r is Ok <==> starts_quote($0.rest()), r is Ok ==> (r->Ok_0).1.0.kind == TokenKind::StringLiteral,
@{T03}    got_tok($0, r, string_tok($0.rest())),
//@ fn number_literal revealstr
//@ attrs
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
//@ contract
    requires $0.ok(),
    ensures
@{T01,T03,H01}    safe_tok($0, r),
@{T02}    got_tok($0, r, s_number($0.rest())),
//@ entry
    hide(starts); hide(boundary); hide(cix); hide(at);
    proof { lemma_starts_lits(); }
    proof { lemma_ok($0); lemma_first($0.rest()); }
    let ghost s0 = $0.rest();
    let ghost sign: int = if starts(s0, "-"@) { 1 } else { 0 };
    let ghost whole: int = if starts(s0.skip(sign), "0"@) { 1 } else { run(s0.skip(sign), f_digit()) as int };
//@ after_let rest 0
    let ghost r1 = rest;
@{T02}    proof { assert(inp_adv($0, r1, sign)); }
    proof { lemma_ok(r1); }
//@ after_let rest 1
    let ghost r2 = rest;
@{T02}    proof { assert(inp_adv(r1, r2, whole)); assert(inp_adv($0, r2, sign + whole)); }
    proof { lemma_ok(r2); }
//@ after_let rest 3
    let ghost r3 = rest;
@{T02}    proof { assert(inp_adv($0, r3, sign + whole + 1)); }
    proof { lemma_ok(r3); }
//@ before_loop 0
        proof { lemma_ok(rest); }
//@ before_loop 0
        let ghost mut gn0: int = 0;
        let ghost gs0 = rest.rest();
        proof { assert(gs0.skip(0) =~= gs0); lemma_first(gs0); }
//@ loop 0
        invariant_except_break vx_it1@ == gs0.skip(gn0),
        invariant 0 <= gn0 <= gs0.len(), bl(gs0) <= usize::MAX, vx_out1 == gn0, bl(gs0.take(gn0)) == gn0,
@{T02}            forall|i: int| 0 <= i < gn0 ==> f_digit()(#[trigger] gs0[i]),
@{T02}        ensures gn0 < gs0.len() ==> !f_digit()(gs0[gn0]),
        decreases gs0.len() - gn0,
//@ loop_start 0
        proof { if gn0 < gs0.len() { lemma_bl_step(gs0, gn0); } }
//@ loop_end 0
        proof { gn0 = gn0 + 1; }
//@ after_loop 0
@{T02}    proof { lemma_run(gs0, f_digit(), gn0 as nat); }
//@ before_loop 1
        proof { lemma_ok(rest); }
//@ before_loop 1
        let ghost mut gn1: int = 0;
        let ghost gs1 = rest.rest();
        proof { assert(gs1.skip(0) =~= gs1); lemma_first(gs1); }
//@ loop 1
        invariant_except_break vx_it2@ == gs1.skip(gn1),
        invariant 0 <= gn1 <= gs1.len(), bl(gs1) <= usize::MAX, vx_out2 == gn1, bl(gs1.take(gn1)) == gn1,
@{T02}            forall|i: int| 0 <= i < gn1 ==> f_digit()(#[trigger] gs1[i]),
@{T02}        ensures gn1 < gs1.len() ==> !f_digit()(gs1[gn1]),
        decreases gs1.len() - gn1,
//@ loop_start 1
        proof { if gn1 < gs1.len() { lemma_bl_step(gs1, gn1); } }
//@ loop_end 1
        proof { gn1 = gn1 + 1; }
//@ after_loop 1
@{T02}    proof { lemma_run(gs1, f_digit(), gn1 as nat); }
    proof { lemma_bl_pos(gs1.take(gn1)); }
//@ fn parse_token
    requires $0.ok(),
    ensures
        r is Err <==> $0.rest().len() == 0,
@{T01,T03,H01}    safe_tok($0, r),
@{T02}    $0.rest().len() > 0 ==> tok_kind($0, r),
@{T03}    starts_quote($0.rest()) ==> got_tok($0, r, string_tok($0.rest())),
//@ entry
    proof { lemma_first($0.rest()); }
//@ raw
/// one token of a tokenized text, judged against the grammar
pub open spec fn tok_at(s: Seq<char>, t: Token, d: Diagnostic) -> bool {
    let a = cix(s, t.range.start as nat); let b = cix(s, t.range.end as nat); let x = s.skip(a);
    &&& boundary(s, t.range.start as nat) && boundary(s, t.range.end as nat) && a < b && t.range.start < t.range.end <= bl(s)
@{H01,R02}    &&& diag_in(s, t.range, d)
@{T02}    &&& s_before(x) is Some ==> b - a == (s_before(x)->0).0 && t.kind == (s_before(x)->0).1 && (!(d is Valid) <==> (s_before(x)->0).2)
@{T02}    &&& s_before(x) is None && starts_quote(x) ==> t.kind == TokenKind::StringLiteral
@{T02}    &&& s_before(x) is None && !starts_quote(x) ==> b - a == s_after(x).0 && t.kind == s_after(x).1 && (!(d is Valid) <==> s_after(x).2)
@{T03}    &&& starts_quote(x) ==> b - a == (s_string(x)->0).0 && t.kind == TokenKind::StringLiteral && (!(d is Valid) <==> (s_string(x)->0).1)
}
pub open spec fn tok_res<'a>(b: Input<'a>, t: Token, d: Diagnostic) -> TD<'a> { Ok((b, (t, d))) }
pub proof fn lemma_tok(a: Input, b: Input, t: Token, d: Diagnostic)
    requires a.ok(), a.rest().len() > 0,
@{T01,T03,H01}        safe_tok(a, tok_res(b, t, d)),
@{T02}        tok_kind(a, tok_res(b, t, d)),
@{T03}        starts_quote(a.rest()) ==> got_tok(a, tok_res(b, t, d), string_tok(a.rest())),
    ensures tok_at(a.str@, t, d), t.range.start == a.offset, t.range.end == b.offset, b.ok(), b.str == a.str,
        b.rest().len() < a.rest().len(),
{
@{T02}    lemma_kind_pos(a.rest());
    lemma_ok(a);
    lemma_ok(b);
}
@{T02}pub proof fn lemma_kind_pos(s: Seq<char>)
@{T02}    requires s.len() > 0,
@{T02}    ensures s_before(s) is Some ==> (s_before(s)->0).0 > 0, s_after(s).0 > 0,
@{T02}{ reveal(run); reveal_lits(); }
/// the tokens lie end to end from byte `a` to byte `b`
#[verifier::opaque]
pub open spec fn tiles(s: Seq<char>, t: Seq<Token>, d: Seq<Diagnostic>, a: int, b: int) -> bool
    decreases t.len(),
{
    &&& t.len() == d.len()
    &&& if t.len() == 0 { a == b } else {
        tok_at(s, t.last(), d.last()) && t.last().range.end == b && tiles(s, t.drop_last(), d.drop_last(), a, t.last().range.start as int)
    }
}
pub proof fn lemma_tiles_push(s: Seq<char>, t: Seq<Token>, d: Seq<Diagnostic>, t2: Seq<Token>, d2: Seq<Diagnostic>, x: Token, y: Diagnostic, a: int)
    requires tiles(s, t, d, a, x.range.start as int), tok_at(s, x, y), t2 == t.push(x), d2 == d.push(y),
    ensures tiles(s, t2, d2, a, x.range.end as int),
{
    reveal(tiles);
    assert(t2.drop_last() =~= t);
    assert(d2.drop_last() =~= d);
}
pub proof fn lemma_tiles_nil(s: Seq<char>, a: int)
    ensures tiles(s, Seq::<Token>::empty(), Seq::<Diagnostic>::empty(), a, a),
{ reveal(tiles); }
pub proof fn lemma_tok_place(s: Seq<char>, t: Token, d: Diagnostic)
    requires tok_at(s, t, d),
    ensures boundary(s, t.range.start as nat), boundary(s, t.range.end as nat), cix(s, t.range.start as nat) < cix(s, t.range.end as nat), t.range.start < t.range.end <= bl(s),
{ hide(s_before); hide(s_after); hide(s_string); hide(starts_quote); }
/// what `tiles` says, token by token: the texts of the tokens, one after the other, are the text from `a` to `b`
pub proof fn lemma_tiles(s: Seq<char>, t: Seq<Token>, d: Seq<Diagnostic>, a: int, b: int)
    requires tiles(s, t, d, a, b), boundary(s, a as nat), 0 <= a,
    ensures t.len() == d.len(), boundary(s, b as nat), a <= b,
        forall|i: int| 0 <= i < t.len() ==> tok_at(s, #[trigger] t[i], d[i]),
        texts(s, t) == s.subrange(cix(s, a as nat), cix(s, b as nat)),
    decreases t.len(),
{
    hide(tok_at);
    reveal(tiles);
    if t.len() == 0 { assert(s.subrange(cix(s, a as nat), cix(s, b as nat)) =~= Seq::empty()); }
    else {
        let m = t.last().range.start as int;
        lemma_tok_place(s, t.last(), d.last());
        lemma_tiles(s, t.drop_last(), d.drop_last(), a, m);
        assert forall|i: int| 0 <= i < t.len() implies tok_at(s, #[trigger] t[i], d[i]) by {
            if i < t.len() - 1 { assert(t[i] == t.drop_last()[i]); assert(d[i] == d.drop_last()[i]); }
        }
        let ka = cix(s, a as nat); let km = cix(s, m as nat); let kb = cix(s, b as nat);
        assert(at(s, a as nat, ka)); assert(at(s, m as nat, km)); assert(at(s, b as nat, kb));
        if km < ka { lemma_bl_take(s, km, ka); }
        assert(s.subrange(ka, km) + s.subrange(km, kb) =~= s.subrange(ka, kb));
    }
}
/// the texts of the tokens laid end to end
pub open spec fn texts(s: Seq<char>, t: Seq<Token>) -> Seq<char>
    decreases t.len(),
{ if t.len() == 0 { Seq::empty() } else { texts(s, t.drop_last()) + s.subrange(cix(s, t.last().range.start as nat), cix(s, t.last().range.end as nat)) } }
/// a tokenized text is reproduced by its tokens
pub proof fn theorem_lossless(s: Seq<char>, t: Seq<Token>, d: Seq<Diagnostic>)
    requires tiles(s, t, d, 0, bl(s) as int),
    ensures t.len() == d.len(), texts(s, t) == s,
{
    lemma_at_ends(s); lemma_at_unique(s, 0, 0); lemma_at_unique(s, bl(s), s.len() as int);
    lemma_tiles(s, t, d, 0, bl(s) as int);
    assert(s.subrange(0, s.len() as int) =~= s);
}
//@ end
//@ fn parse_tokens loops=1
    requires $0.ok(),
    ensures tiles($0.str@, r.0@, r.1@, $0.offset as int, bl($0.str@) as int),
//@ entry
    hide(tok_at); hide(got_tok); hide(safe_tok); hide(adv);
@{T02}    hide(tok_kind);
    proof { lemma_tiles_nil($0.str@, $0.offset as int); }
//@ loop 0
    invariant_except_break true,
    invariant $0.ok(), input.ok(), input.str == $0.str,
        tiles($0.str@, tokens@, diagnostics@, $0.offset as int, input.offset as int),
    ensures input.rest().len() == 0,
    decreases input.rest().len(),
//@ loop_start 0
    let ghost i0 = input; let ghost t0 = tokens@; let ghost d0 = diagnostics@;
    proof { lemma_ok(input); }
//@ loop_end 0
    proof {
        lemma_tok(i0, input, tokens@.last(), diagnostics@.last());
        lemma_tiles_push($0.str@, t0, d0, tokens@, diagnostics@, tokens@.last(), diagnostics@.last(), $0.offset as int);
    }
//@ after_loop 0
    proof { lemma_ok(input); reveal(bl); }
//@ fn tokenize
//@ contract
    ensures tiles($0@, r.0@, r.1@, 0, bl($0@) as int),
//@ entry
    broadcast use {axt::ax_mkstrbox, axt::ax_strbox_back, ax::ax_str_len};
