//@ include pre.vspec
//@ include text.vspec
//@ include exprcore.vspec
//@ include std.vspec
//@ include coll.vspec
//@ include numtext.vspec
//@ include lexbody.vspec assumed=Input::deref@Deref,Input::new,Input::is_empty,Token::new,parse_tokens
//@ default vclone streq ctx vindex
//@ raw
} // verus!
verus! {
// ---------------------------------------------------------------- dependencies
impl VxVal for TokenKind { type W = TokenKind; open spec fn val(&self) -> TokenKind { *self } }
impl VxVal for Diagnostic { type W = Diagnostic; open spec fn val(&self) -> Diagnostic { *self } }
pub use nom::error::ErrorKind;
impl<'a> VxInto<String> for &'a str {
    open spec fn conv(self) -> String { mkstr(self@) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@ { unimplemented!() }
pub trait VxReverse { fn vx_reverse(&mut self); }
impl<T> VxReverse for Vec<T> {
    #[verifier::external_body]
    fn vx_reverse(&mut self) ensures final(self)@ == old(self)@.reverse() { unimplemented!() }
}
pub open spec fn inserted(m: Map<Seq<char>, Expression>, s: Seq<(String, Expression)>) -> Map<Seq<char>, Expression>
    decreases s.len(),
{ if s.len() == 0 { m } else { inserted(m.insert(s[0].0@, s[0].1), s.skip(1)) } }
impl VxCollect<(String, Expression)> for BTreeMap<String, Expression> {
    open spec fn collected(&self, s: Seq<(String, Expression)>) -> bool { self@ == inserted(Map::empty(), s) }
}
/// indexing
pub trait VxAt<T> { spec fn elems(&self) -> Seq<T>; }
impl<T> VxAt<T> for [T] { open spec fn elems(&self) -> Seq<T> { self@ } }
impl<T> VxAt<T> for Vec<T> { open spec fn elems(&self) -> Seq<T> { self@ } }
impl<T, S: VxAt<T> + ?Sized> VxAt<T> for &S { open spec fn elems(&self) -> Seq<T> { (**self).elems() } }
#[verifier::external_body]
pub fn vx_at<T, S: VxAt<T> + ?Sized>(s: &S, i: usize) -> (r: &T)
    requires i < s.elems().len(),
    ensures *r == s.elems()[i as int],
{ unimplemented!() }
/// a string literal all of whose escapes are good
pub open spec fn good_string(s: Seq<char>) -> bool { s_string(s) == Some((s.len(), false)) }
pub mod snailquote {
    use super::*;
    verus! {
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct UnescapeError { p: u8 }
    #[verifier::external_body]
    pub fn unescape(s: &str) -> (r: Result<String, UnescapeError>)
        ensures good_string(s@) ==> r is Ok && r->Ok_0@ == unquoted(s@),
    { unimplemented!() }
    }
}
/// the text a string literal stands for (the escapes replaced by what they denote)
pub uninterp spec fn unquoted(s: Seq<char>) -> Seq<char>;
pub trait VxFirst<T> { fn vx_first(&self) -> Option<&T>; }
impl<T> VxFirst<T> for [T] {
    fn vx_first(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 },
    { if self.len() == 0 { None } else { Some(&self[0]) } }
}
#[verifier::external_body]
pub fn vx_slice_from<T>(s: &[T], n: usize) -> (r: &[T])
    requires n <= s@.len(),
    ensures r@ == s@.skip(n as int),
{ unimplemented!() }
pub trait VxWindows<T> { fn vx_windows<'a>(&'a self, n: usize) -> VxIt<&'a [T]>; }
impl<T> VxWindows<T> for [T] {
    #[verifier::external_body]
    fn vx_windows<'a>(&'a self, n: usize) -> (r: VxIt<&'a [T]>)
        ensures n > 0 ==> r@.len() == (if self@.len() >= n { self@.len() - n + 1 } else { 0 })
            && (forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@.subrange(i, i + n)),
    { unimplemented!() }
}

// ---------------------------------------------------------------- tokens
pub ghost struct Tok { pub kind: TokenKind, pub txt: Seq<char> }
pub type Ts = Seq<Tok>;
pub open spec fn tok_text(s: Seq<char>, t: Token) -> Seq<char> { s.subrange(cix(s, t.range.start as nat), cix(s, t.range.end as nat)) }
pub open spec fn tok_of(s: Seq<char>, t: Token) -> Tok { Tok { kind: t.kind, txt: tok_text(s, t) } }
pub open spec fn toks_of(s: Seq<char>, t: Seq<Token>) -> Ts { t.map_values(|x: Token| tok_of(s, x)) }
/// the token lies inside the text, and if it is a string literal it is a good one
pub open spec fn tok_in(s: Seq<char>, t: Token) -> bool {
    &&& t.range.start <= t.range.end && boundary(s, t.range.start as nat) && boundary(s, t.range.end as nat)
    &&& t.kind == TokenKind::StringLiteral ==> good_string(tok_text(s, t))
}
impl<'a> Tokens<'a> {
    #[verifier::opaque]
    pub open spec fn ok(self) -> bool { forall|i: int| 0 <= i < self.slice@.len() ==> tok_in(self.str@, #[trigger] self.slice@[i]) }
    pub open spec fn toks(self) -> Ts { toks_of(self.str@, self.slice@) }
}
/// nom::combinator::eof
pub fn eof<'a>(i: Tokens<'a>) -> (r: core::result::Result<(Tokens<'a>, Tokens<'a>), nom::Err<SyntaxError>>)
        requires i.ok(),
    ensures match r { Ok((b, _)) => b == i && i.slice@.len() == 0, Err(e) => e is Error && i.slice@.len() > 0 && placed(i, e) },
{ if i.input_len() == 0 { Ok((i, i)) } else { Err(nom::Err::Error(vx_err_at(&i))) } }
/// nom's parsers make their errors of the input they are given, by ParseError's functions
impl<'a> VxErrIn<SyntaxError> for Tokens<'a> {
    open spec fn good(&self) -> bool { self.ok() }
    open spec fn fits(&self, e: SyntaxError) -> bool { error_marks(self.slice@, self.str@, e) }
    #[verifier::external_body]
    fn vx_err_at(&self) -> (r: SyntaxError) { unimplemented!() }
}
/// a token of the text, or the place where the text ends
#[verifier::opaque]
pub open spec fn marks(t: Seq<Token>, s: Seq<char>, x: StrSlice) -> bool {
    (x.start == bl(s) && x.end == bl(s)) || exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).range == x
}
#[verifier::opaque]
pub open spec fn error_marks(t: Seq<Token>, s: Seq<char>, e: SyntaxError) -> bool
    decreases e,
{
    match e {
        SyntaxError::TokenizationErrors(v) => false,
        SyntaxError::Expected { input, .. } => marks(t, s, input),
        SyntaxError::ExpectedChar { at, .. } => at is Some ==> marks(t, s, at->Some_0),
        SyntaxError::NomError { at, cause, .. } => (at is Some ==> marks(t, s, at->Some_0)) && (match cause { Some(c) => error_marks(t, s, *c), None => true }),
        SyntaxError::InternalError => true,
    }
}
pub open spec fn err_of(e: nom::Err<SyntaxError>) -> SyntaxError { match e { nom::Err::Error(x) => x, nom::Err::Failure(x) => x, _ => SyntaxError::InternalError } }
pub open spec fn placed(a: Tokens, e: nom::Err<SyntaxError>) -> bool { error_marks(a.slice@, a.str@, err_of(e)) }
/// `b` is what is left of `a` behind some of its tokens
#[verifier::opaque]
pub open spec fn rest_of(a: Tokens, b: Tokens) -> bool {
    b.str == a.str && b.slice@.len() <= a.slice@.len() && b.slice@ == a.slice@.skip(a.slice@.len() - b.slice@.len())
}
pub open spec fn one_of(t: Seq<Token>, x: StrSlice) -> bool { exists|j: int| 0 <= j < t.len() && (#[trigger] t[j]).range == x }
pub open spec fn among(t: Seq<Token>, u: Seq<Token>) -> bool { forall|i: int| 0 <= i < u.len() ==> one_of(t, (#[trigger] u[i]).range) }
pub proof fn lemma_among(t: Seq<Token>, u: Seq<Token>, s: Seq<char>, e: SyntaxError)
    requires among(t, u), error_marks(u, s, e),
    ensures error_marks(t, s, e),
    decreases e,
{
    reveal(error_marks);
    match e {
        SyntaxError::Expected { input, .. } => lemma_mark_among(t, u, s, input),
        SyntaxError::ExpectedChar { at, .. } => if at is Some { lemma_mark_among(t, u, s, at->Some_0) },
        SyntaxError::NomError { at, cause, .. } => { if at is Some { lemma_mark_among(t, u, s, at->Some_0) } match cause { Some(c) => lemma_among(t, u, s, *c), None => {} } }
        _ => {}
    }
}
pub proof fn lemma_mark_among(t: Seq<Token>, u: Seq<Token>, s: Seq<char>, x: StrSlice)
    requires among(t, u), marks(u, s, x),
    ensures marks(t, s, x),
{
    reveal(marks);
    if !(x.start == bl(s) && x.end == bl(s)) {
        let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).range == x;
        assert(one_of(t, u[i].range));
    }
}
pub mod mark {
    use super::*;
    verus! {
    pub broadcast proof fn lemma_placed(a: Tokens, b: Tokens, e: SyntaxError)
        requires #[trigger] rest_of(a, b), #[trigger] error_marks(b.slice@, b.str@, e),
        ensures error_marks(a.slice@, a.str@, e),
    {
        reveal(rest_of);
        let n = a.slice@.len() - b.slice@.len();
        assert forall|i: int| 0 <= i < b.slice@.len() implies one_of(a.slice@, (#[trigger] b.slice@[i]).range) by { assert(a.slice@[i + n] == b.slice@[i]); }
        lemma_among(a.slice@, b.slice@, a.str@, e);
    }
    pub broadcast proof fn lemma_mark(a: Tokens, b: Tokens, x: StrSlice)
        requires #[trigger] rest_of(a, b), #[trigger] marks(b.slice@, b.str@, x),
        ensures marks(a.slice@, a.str@, x),
    {
        let e = SyntaxError::ExpectedChar { expected: ' ', at: Some(x) };
        reveal(error_marks);
        assert(error_marks(b.slice@, b.str@, e));
        lemma_placed(a, b, e);
    }
    pub broadcast proof fn lemma_rest(a: Tokens, b: Tokens, c: Tokens)
        requires #[trigger] rest_of(a, b), #[trigger] rest_of(b, c),
        ensures rest_of(a, c),
    {
        reveal(rest_of);
        sk::lemma_skip_skip(a.slice@, a.slice@.len() - b.slice@.len(), b.slice@.len() - c.slice@.len());
    }
    pub broadcast proof fn lemma_rest_self(a: Tokens)
        ensures #[trigger] rest_of(a, a),
    { reveal(rest_of); assert(a.slice@.skip(0) =~= a.slice@); }
    pub broadcast proof fn lemma_expected(t: Seq<Token>, s: Seq<char>, e: SyntaxError)
        requires e is Expected || e is InternalError,
        ensures #[trigger] error_marks(t, s, e) == (e is Expected ==> marks(t, s, e->input)),
    { reveal(error_marks); }
    }
}
} // verus!
verus! {
//@ end
//@ file src/expr.rs
//@ file src/parser.rs
//@ types SyntaxError
//@ include inside.vspec
//@ file src/tokens.rs
//@ types Tokens:Clone,Copy
//@ fn Token::text
    requires tok_in($1.str@, $0),
    ensures r@ == tok_text($1.str@, $0),
//@ fn Tokens::deref@Deref name=deref
    ensures r@ == $0.slice@,
//@ fn Tokens::input_len@InputLength name=input_len
    ensures r == $0.slice@.len(),
//@ raw
} // verus!
verus! {
// what Deref gives Tokens
impl<'a> VxFirst<Token> for Tokens<'a> {
    fn vx_first(&self) -> (r: Option<&Token>)
        ensures match r { Some(x) => self.slice@.len() > 0 && *x == self.slice@[0], None => self.slice@.len() == 0 },
    { self.deref().vx_first() }
}
impl<'a> VxAt<Token> for Tokens<'a> { open spec fn elems(&self) -> Seq<Token> { self.slice@ } }
impl<'a> Tokens<'a> {
    pub fn len(&self) -> (r: usize) ensures r == self.slice@.len() { self.deref().len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.slice@.len() == 0) { self.deref().len() == 0 }
}
} // verus!
verus! {
//@ end
//@ fn Tokens::skip_n
    requires $1 <= $0.slice@.len(),
    ensures rest_of($0, r), r.str == $0.str, r.slice@ == $0.slice@.skip($1 as int), r.toks() == $0.toks().skip($1 as int), $0.ok() ==> r.ok(),
//@ entry
    proof { reveal(Tokens::ok); reveal(rest_of); assert(toks_of($0.str@, $0.slice@.skip($1 as int)) =~= $0.toks().skip($1 as int)); }
//@ fn Tokens::get_str_slice
    requires $0.ok(),
    ensures marks($0.slice@, $0.str@, r),
//@ entry
    proof { reveal(Tokens::ok); reveal(marks); lemma_at_ends($0.str@); }

//@ raw
} // verus!
pub mod u {
use super::*;
verus! {
pub mod mk {
    use super::*;
    verus! {
    broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axe::ax_map_key_ext, axl::ax_mkvec, axl::ax_vec_back, axm::ax_mkmap, axm::ax_map_back, axm::ax_mkstr, axm::ax_str_back};
    pub broadcast proof fn lemma_str(x: String) ensures mkstr(#[trigger] x@) == x { assert(mkstr(x@)@ == x@); }
    pub broadcast proof fn lemma_vec(x: Vec<Expression>) ensures mkvec(#[trigger] x@) == x { assert(mkvec(x@)@ == x@); }
    pub broadcast proof fn lemma_map(x: BTreeMap<String, Expression>) ensures mkmap(#[trigger] x@) == x { assert(mkmap(x@)@ == x@); }
    pub broadcast proof fn lemma_cons<T>(a: Seq<T>, x: T, b: Seq<T>) ensures #[trigger] (a + (seq![x] + b)) == a.push(x) + b { assert(a + (seq![x] + b) =~= a.push(x) + b); }
    pub broadcast proof fn lemma_nil<T>(a: Seq<T>) ensures #[trigger] (a + Seq::<T>::empty()) == a, { assert(a + Seq::<T>::empty() =~= a); }
    }
}
broadcast use {mark::lemma_placed, mark::lemma_mark, mark::lemma_rest, mark::lemma_rest_self, mark::lemma_expected, axl::ax_mkvec, axl::ax_vec_back, axm::ax_mkmap, axm::ax_map_back, axm::ax_mkstr, axm::ax_str_back, axt::ax_mkstrbox, axt::ax_strbox_back, ax::ax_str_len, mk::lemma_str, mk::lemma_vec, mk::lemma_map, mk::lemma_cons, mk::lemma_nil};

// ---------------------------------------------------------------- the grammar
/// the outcome of a rule: what is left and the value; does not apply; the script is refused
pub enum PR<T> { Got(Ts, T), No, Fatal }
pub type PE = PR<Expression>;
type E = Expression;
pub open spec fn tx(t: Ts, s: Seq<char>) -> bool { t.len() > 0 && t[0].txt == s }
pub open spec fn isk(t: Ts, k: TokenKind) -> bool { t.len() > 0 && t[0].kind == k }
pub open spec fn or_<T>(a: PR<T>, b: PR<T>) -> PR<T> { if a is No { b } else { a } }
pub open spec fn must<T>(a: PR<T>) -> PR<T> { if a is No { PR::Fatal } else { a } }
pub open spec fn sym(s: Seq<char>) -> E { E::Symbol(mkstr(s)) }
pub open spec fn app(f: E, a: Seq<E>) -> E { E::Apply(Box::new(f), mkvec(a)) }
pub open spec fn two_(a: E, b: E) -> Seq<E> { Seq::empty().push(a).push(b) }
pub open spec fn lone(a: E) -> Seq<E> { Seq::empty().push(a) }
pub open spec fn group_(e: E) -> E { E::Group(Box::new(e)) }
/// a token that ends an expression
pub open spec fn ends(t: Ts) -> bool {
    isk(t, TokenKind::Punctuation) && (tx(t, ";"@) || tx(t, ","@) || tx(t, "="@) || tx(t, "]"@) || tx(t, ")"@) || tx(t, "}"@) || tx(t, "|"@))
}
pub open spec fn name(t: Ts) -> PR<String> { if isk(t, TokenKind::Symbol) { PR::Got(t.skip(1), mkstr(t[0].txt)) } else { PR::No } }
pub open spec fn oper(t: Ts) -> PR<String> { if isk(t, TokenKind::Operator) { PR::Got(t.skip(1), mkstr(t[0].txt)) } else { PR::No } }
pub open spec fn opsym(t: Ts) -> PE { if isk(t, TokenKind::Operator) { PR::Got(t.skip(1), sym(t[0].txt)) } else { PR::No } }
/// the operators of each level
pub open spec fn op_at(k: nat, o: Seq<char>) -> bool {
    if k == 3 { o == "*"@ || o == "//"@ || o == "%"@ }
    else if k == 4 { o == "+"@ || o == "-"@ }
    else if k == 5 { o == "=="@ || o == "!="@ || o == ">="@ || o == "<="@ || o == ">"@ || o == "<"@ }
    else { o == "&&"@ || o == "||"@ }
}
/// operators applied one after the other, from the left
#[vx_def]
pub open spec fn grp(h: E, s: Seq<(String, E)>) -> E
    decreases s.len(),
{ if s.len() == 0 { h } else { grp(group_(app(E::Symbol(s[0].0), two_(h, s[0].1))), s.skip(1)) } }
pub open spec fn prep<T>(a: Seq<T>, p: PR<Seq<T>>) -> PR<Seq<T>> { match p { PR::Got(t, b) => PR::Got(t, a + b), x => x } }
/// pipes and redirections
#[vx_def]
pub open spec fn pipe_args(a: Seq<E>, s: Seq<(String, E)>) -> Seq<E>
    decreases s.len(),
{
    if s.len() == 0 { a } else {
        let o = s[0].0@; let x = s[0].1;
        pipe_args(if o == "<<"@ { a.drop_last().push(app(sym(o), lone(x))).push(a.last()) } else if o == "|"@ { a.push(x) } else { a.push(app(sym(o), lone(x))) }, s.skip(1))
    }
}
pub open spec fn pipe_op(o: Seq<char>) -> bool { o == "|"@ || o == ">>>"@ || o == ">>"@ || o == "<<"@ }
pub open spec fn no_env() -> Environment { Environment { bindings: mkmap(Map::empty()), parent: None } }

#[vx_def]
pub open spec fn one(t: Ts) -> PE decreases t.len(), 10nat {
    or_(group(t), or_(quote_(t), or_(map_(t), or_(block(t), or_(list(t), atom(t))))))
}
pub open spec fn atom(t: Ts) -> PE {
    if t.len() == 0 { PR::No }
    else if t[0].kind == TokenKind::BooleanLiteral { PR::Got(t.skip(1), E::Boolean(t[0].txt == "True"@)) }
    else if t[0].txt == "None"@ { PR::Got(t.skip(1), E::None) }
    else if t.len() >= 2 && t[0].txt == "("@ && t[1].txt == ")"@ { PR::Got(t.skip(2), E::None) }
    else if t[0].kind == TokenKind::FloatLiteral { match float_of(t[0].txt) { Some(f) => PR::Got(t.skip(1), E::Float(f)), None => PR::Fatal } }
    else if t[0].kind == TokenKind::IntegerLiteral { match written(t[0].txt) { Some(n) if fits(n) => PR::Got(t.skip(1), E::Integer(n as i64)), _ => PR::Fatal } }
    else if t[0].kind == TokenKind::StringLiteral { PR::Got(t.skip(1), E::String(mkstr(unquoted(t[0].txt)))) }
    else if t[0].kind == TokenKind::Symbol { PR::Got(t.skip(1), sym(t[0].txt)) }
    else { PR::No }
}
#[vx_def]
pub open spec fn group(t: Ts) -> PE decreases t.len(), 0nat {
    if !tx(t, "("@) { PR::No } else { match expr(t.skip(1)) {
        PR::Got(u, e) => if tx(u, ")"@) { PR::Got(u.skip(1), group_(e)) } else if u.len() == 0 { PR::Got(u, group_(e)) } else { PR::Fatal },
        x => x,
    } }
}
#[vx_def]
pub open spec fn quote_(t: Ts) -> PE decreases t.len(), 0nat {
    if !tx(t, "'"@) { PR::No } else { match two(t.skip(1)) { PR::Got(u, e) => PR::Got(u, E::Quote(Box::new(e))), x => x } }
}
#[vx_def]
pub open spec fn pair_(t: Ts) -> PR<(String, E)> decreases t.len(), 0nat {
    match or_(name(t), oper(t)) {
        PR::Got(u, k) => if tx(u, "="@) { match expr(t.skip(1).skip(1)) { PR::Got(w, v) => PR::Got(w, (k, v)), PR::No => PR::No, PR::Fatal => PR::Fatal } } else { PR::No },
        _ => PR::No,
    }
}
#[vx_def]
pub open spec fn more_pairs(t: Ts) -> PR<Seq<(String, E)>> decreases t.len(), 0nat {
    if !tx(t, ","@) { PR::Got(t, Seq::empty()) } else { match pair_(t.skip(1)) {
        PR::Got(u, x) => if u.len() < t.len() { prep(seq![x], more_pairs(u)) } else { PR::No },
        PR::No => PR::Got(t, Seq::empty()),
        PR::Fatal => PR::Fatal,
    } }
}
#[vx_def]
pub open spec fn pairs(t: Ts) -> PR<Seq<(String, E)>> decreases t.len(), 1nat {
    match pair_(t) {
        PR::Got(u, x) => if u.len() < t.len() { prep(seq![x], more_pairs(u)) } else { PR::No },
        PR::No => PR::Got(t, Seq::empty()),
        PR::Fatal => PR::Fatal,
    }
}
#[vx_def]
pub open spec fn map_(t: Ts) -> PE decreases t.len(), 0nat {
    if !tx(t, "{"@) { PR::No } else { match pairs(t.skip(1)) {
        PR::Got(u, s) => if tx(u, "}"@) { PR::Got(u.skip(1), E::Map(mkmap(inserted(Map::empty(), s)))) } else if s.len() == 0 { PR::No } else { PR::Fatal },
        PR::No => PR::No,
        PR::Fatal => PR::Fatal,
    } }
}
#[vx_def]
pub open spec fn more_items(t: Ts) -> PR<Seq<E>> decreases t.len(), 0nat {
    if !tx(t, ","@) { PR::Got(t, Seq::empty()) } else { match expr(t.skip(1)) {
        PR::Got(u, x) => if u.len() < t.len() { prep(seq![x], more_items(u)) } else { PR::No },
        PR::No => PR::Got(t, Seq::empty()),
        PR::Fatal => PR::Fatal,
    } }
}
#[vx_def]
pub open spec fn items(t: Ts) -> PR<Seq<E>> decreases t.len(), 40nat {
    match expr(t) {
        PR::Got(u, x) => if u.len() < t.len() { prep(seq![x], more_items(u)) } else { PR::No },
        PR::No => PR::Got(t, Seq::empty()),
        PR::Fatal => PR::Fatal,
    }
}
#[vx_def]
pub open spec fn list(t: Ts) -> PE decreases t.len(), 0nat {
    if !tx(t, "["@) { PR::No } else { match items(t.skip(1)) {
        PR::Got(u, s) => if tx(u, "]"@) { PR::Got(u.skip(1), E::List(mkvec(s))) } else { PR::Fatal },
        PR::No => PR::No,
        PR::Fatal => PR::Fatal,
    } }
}
#[vx_def]
pub open spec fn block(t: Ts) -> PE decreases t.len(), 0nat {
    if !tx(t, "{"@) { PR::No } else { match stmts(t.skip(1)) {
        PR::Got(u, e) => if tx(u, "}"@) { PR::Got(u.skip(1), e) } else { PR::Fatal },
        x => x,
    } }
}
/// indexing: @ and its operands
#[vx_def]
pub open spec fn ats(t: Ts) -> PR<Seq<E>> decreases t.len(), 0nat {
    if !tx(t, "@"@) { PR::Got(t, Seq::empty()) } else { match or_(one(t.skip(1)), opsym(t.skip(1))) {
        PR::Got(u, x) => if u.len() < t.len() { prep(seq![x], ats(u)) } else { PR::No },
        PR::No => PR::Got(t, Seq::empty()),
        PR::Fatal => PR::Fatal,
    } }
}
#[vx_def]
pub open spec fn two(t: Ts) -> PE decreases t.len(), 11nat {
    if ends(t) { PR::No } else { match one(t) {
        PR::Got(u, h) => if u.len() < t.len() { match ats(u) {
            PR::Got(w, s) => if s.len() == 0 { PR::Got(w, h) } else { PR::Got(w, app(sym("@"@), seq![h] + s)) },
            PR::No => PR::No,
            PR::Fatal => PR::Fatal,
        } } else { PR::No },
        x => x,
    } }
}
/// the operands of the operators of a level
#[vx_def]
pub open spec fn next(k: nat, t: Ts) -> PE decreases t.len(), 4 * k via next_dec {
    if k == 3 { two(t) } else if k == 4 { three(t) } else if k == 5 { four(t) } else if k == 6 { five(t) } else { PR::No }
}
#[via_fn]
proof fn next_dec(k: nat, t: Ts) { }
#[vx_def]
pub open spec fn tail(k: nat, t: Ts) -> PR<Seq<(String, E)>> decreases t.len(), 0nat {
    if !(t.len() > 0 && op_at(k, t[0].txt)) { PR::Got(t, Seq::empty()) } else { match next(k, t.skip(1)) {
        PR::Got(u, x) => if u.len() < t.len() { prep(seq![(mkstr(t[0].txt), x)], tail(k, u)) } else { PR::No },
        PR::No => PR::Got(t, Seq::empty()),
        PR::Fatal => PR::Fatal,
    } }
}
#[vx_def]
pub open spec fn chain(k: nat, t: Ts) -> PE decreases t.len(), 4 * k + 1 {
    match next(k, t) {
        PR::Got(u, h) => if u.len() < t.len() { match tail(k, u) { PR::Got(w, s) => PR::Got(w, grp(h, s)), PR::No => PR::No, PR::Fatal => PR::Fatal } } else { PR::No },
        x => x,
    }
}
#[vx_def]
pub open spec fn three(t: Ts) -> PE decreases t.len(), 14nat { if ends(t) { PR::No } else { chain(3, t) } }
#[vx_def]
pub open spec fn four(t: Ts) -> PE decreases t.len(), 18nat { if ends(t) { PR::No } else { chain(4, t) } }
#[vx_def]
pub open spec fn range(t: Ts) -> PE decreases t.len(), 19nat {
    if ends(t) { PR::No } else { match four(t) {
        PR::Got(u, a) => if tx(u, "to"@) && u.len() < t.len() { match four(u.skip(1)) { PR::Got(w, b) => PR::Got(w, app(sym("to"@), two_(a, b))), _ => PR::Fatal } } else { PR::No },
        x => x,
    } }
}
#[vx_def]
pub open spec fn not_(t: Ts) -> PE decreases t.len(), 0nat {
    if !tx(t, "!"@) { PR::No } else { match four(t.skip(1)) { PR::Got(u, e) => PR::Got(u, app(sym("!"@), seq![e])), x => x } }
}
#[vx_def]
pub open spec fn five(t: Ts) -> PE decreases t.len(), 22nat {
    if ends(t) { PR::No } else if not_(t) is Got { not_(t) } else { match next(5, t) {
        PR::Got(u, h) => if u.len() < t.len() { match tail(5, u) {
            PR::Got(w, s) => if s.len() == 0 && tx(w, "to"@) && w.len() < t.len() {
                match four(w.skip(1)) { PR::Got(z, y) => PR::Got(z, app(sym("to"@), two_(h, y))), _ => PR::Fatal }
            } else { PR::Got(w, grp(h, s)) },
            PR::No => PR::No,
            PR::Fatal => PR::Fatal,
        } } else { PR::No },
        x => x,
    } }
}
#[vx_def]
pub open spec fn six(t: Ts) -> PE decreases t.len(), 26nat { if ends(t) { PR::No } else { chain(6, t) } }
#[vx_def]
pub open spec fn args(t: Ts) -> PR<Seq<E>> decreases t.len(), 27nat {
    match five(t) {
        PR::Got(u, x) => if u.len() < t.len() { prep(seq![x], args(u)) } else { PR::No },
        PR::No => PR::Got(t, Seq::empty()),
        PR::Fatal => PR::Fatal,
    }
}
#[vx_def]
pub open spec fn apply(t: Ts) -> PE decreases t.len(), 28nat {
    match or_(two(t), opsym(t)) {
        PR::Got(u, f) => if u.len() < t.len() { match args(u) {
            PR::Got(w, s) => if s.len() == 0 { PR::No } else { PR::Got(w, app(f, s)) },
            PR::No => PR::No,
            PR::Fatal => PR::Fatal,
        } } else { PR::No },
        x => x,
    }
}
#[vx_def]
pub open spec fn apply_op(t: Ts) -> PE decreases t.len(), 28nat {
    match opsym(t) {
        PR::Got(u, f) => if u.len() < t.len() { match args(u) {
            PR::Got(w, s) => if s.len() == 0 { PR::Got(w, f) } else { PR::Got(w, app(f, s)) },
            PR::No => PR::No,
            PR::Fatal => PR::Fatal,
        } } else { PR::No },
        x => x,
    }
}
#[vx_def]
pub open spec fn assign(t: Ts) -> PE decreases t.len(), 0nat {
    if !tx(t, "let"@) { PR::No } else { match must(or_(name(t.skip(1)), oper(t.skip(1)))) {
        PR::Got(u, n) => if tx(u, "="@) { match expr(t.skip(1).skip(1).skip(1)) { PR::Got(w, e) => PR::Got(w, E::Assign(n, Box::new(e))), x => x } } else { PR::Fatal },
        _ => PR::Fatal,
    } }
}
#[vx_def]
pub open spec fn for_(t: Ts) -> PE decreases t.len(), 0nat {
    if !tx(t, "for"@) { PR::No } else { match name(t.skip(1)) {
        PR::Got(u, n) => if tx(u, "in"@) && u.len() < t.len() { match or_(range(u.skip(1)), four(u.skip(1))) {
            PR::Got(w, l) => if w.len() < t.len() { match block(w) { PR::Got(z, b) => PR::Got(z, E::For(n, Box::new(l), Box::new(b))), _ => PR::Fatal } } else { PR::Fatal },
            _ => PR::Fatal,
        } } else { PR::Fatal },
        _ => PR::Fatal,
    } }
}
#[vx_def]
pub open spec fn if_(t: Ts) -> PE decreases t.len(), 0nat {
    if !tx(t, "if"@) { PR::No } else { match six(t.skip(1)) {
        PR::Got(u, c) => if u.len() < t.len() { match four(u) {
            PR::Got(w, a) => if tx(w, "else"@) && w.len() < t.len() { match or_(if_(w.skip(1)), four(w.skip(1))) {
                PR::Got(z, b) => PR::Got(z, E::If(Box::new(c), Box::new(a), Box::new(group_(b)))),
                PR::No => PR::Got(w, E::If(Box::new(c), Box::new(a), Box::new(E::None))),
                PR::Fatal => PR::Fatal,
            } } else { PR::Got(w, E::If(Box::new(c), Box::new(a), Box::new(E::None))) },
            _ => PR::Fatal,
        } } else { PR::Fatal },
        _ => PR::Fatal,
    } }
}
#[vx_def]
pub open spec fn callable(t: Ts) -> PE decreases t.len(), 0nat {
    match name(t) {
        PR::Got(u, p) => if tx(u, "->"@) { match expr(t.skip(1).skip(1)) { PR::Got(w, b) => PR::Got(w, E::Lambda(p, Box::new(b), no_env())), _ => PR::Fatal } }
            else if tx(u, "~>"@) { match expr(t.skip(1).skip(1)) { PR::Got(w, b) => PR::Got(w, E::Macro(p, Box::new(b))), _ => PR::Fatal } }
            else { PR::No },
        _ => PR::No,
    }
}
#[vx_def]
pub open spec fn seven(t: Ts) -> PE decreases t.len(), 30nat {
    if ends(t) { PR::No } else { or_(for_(t), or_(if_(t), or_(assign(t), or_(callable(t), or_(apply(t), or_(apply_op(t), six(t))))))) }
}
#[vx_def]
pub open spec fn pipes(t: Ts) -> PR<Seq<(String, E)>> decreases t.len(), 0nat {
    if !(t.len() > 0 && pipe_op(t[0].txt)) { PR::Got(t, Seq::empty()) } else { match seven(t.skip(1)) {
        PR::Got(u, x) => if u.len() < t.len() { prep(seq![(mkstr(t[0].txt), x)], pipes(u)) } else { PR::No },
        PR::No => PR::Got(t, Seq::empty()),
        PR::Fatal => PR::Fatal,
    } }
}
#[vx_def]
pub open spec fn expr(t: Ts) -> PE decreases t.len(), 31nat {
    if ends(t) { PR::No } else { match seven(t) {
        PR::Got(u, h) => if u.len() < t.len() { match pipes(u) {
            PR::Got(w, s) => if s.len() == 0 { PR::Got(w, h) } else { PR::Got(w, group_(app(sym("|"@), pipe_args(seq![h], s)))) },
            PR::No => PR::No,
            PR::Fatal => PR::Fatal,
        } } else { PR::No },
        x => x,
    } }
}
#[vx_def]
pub open spec fn statement(t: Ts) -> PE decreases t.len(), 32nat {
    match expr(t) {
        PR::Got(u, e) => if tx(u, ";"@) { PR::Got(u.skip(1), e) } else if e is For || e is If { PR::Got(u, e) } else { PR::No },
        x => x,
    }
}
#[vx_def]
pub open spec fn statements(t: Ts) -> PR<Seq<E>> decreases t.len(), 33nat {
    match statement(t) {
        PR::Got(u, x) => if u.len() < t.len() { prep(seq![x], statements(u)) } else { PR::No },
        PR::No => PR::Got(t, Seq::empty()),
        PR::Fatal => PR::Fatal,
    }
}
#[vx_def]
pub open spec fn stmts(t: Ts) -> PE decreases t.len(), 34nat {
    match statements(t) {
        PR::Got(u, s) => if u.len() <= t.len() { match expr(u) {
            PR::Got(w, e) => PR::Got(if tx(w, ";"@) { w.skip(1) } else { w }, E::Do(mkvec(s.push(e)))),
            PR::No => PR::Got(u, E::Do(mkvec(s))),
            PR::Fatal => PR::Fatal,
        } } else { PR::No },
        PR::No => PR::No,
        PR::Fatal => PR::Fatal,
    }
}
/// a whole script
pub open spec fn script(t: Ts) -> Option<E> { match stmts(t) { PR::Got(u, e) if u.len() == 0 => Some(e), _ => None } }

/// two tokens of these kinds may not touch
pub open spec fn wordlike(k: TokenKind) -> bool {
    k is Symbol || k is Keyword || k is Operator || k is BooleanLiteral || k is FloatLiteral || k is IntegerLiteral
}
pub open spec fn glued(a: Tok, b: Tok) -> bool { wordlike(a.kind) && wordlike(b.kind) && a.txt != "@"@ && b.txt != "@"@ }
pub open spec fn glued_at(t: Ts, i: int) -> bool { glued(t[i], t[i + 1]) }
#[verifier::opaque]
pub open spec fn none_glued(t: Ts) -> bool { forall|i: int| 0 <= i < t.len() - 1 ==> !#[trigger] glued_at(t, i) }
pub open spec fn joined(t: Seq<Token>, i: int) -> bool { t[i].range.end == t[i + 1].range.start }
#[verifier::opaque]
pub open spec fn all_valid(d: Seq<Diagnostic>) -> bool { forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]) is Valid }
pub open spec fn blank(k: TokenKind) -> bool { k is Whitespace || k is Comment }
/// the tokens that matter, in order
#[verifier::opaque]
pub open spec fn nonblank(t: Ts) -> Ts decreases t.len()
{ if t.len() == 0 { t } else if blank(t.last().kind) { nonblank(t.drop_last()) } else { nonblank(t.drop_last()).push(t.last()) } }
/// what becomes of a text made of these tokens
pub open spec fn outcome(t: Ts, d: Seq<Diagnostic>) -> Option<E> {
    if all_valid(d) && none_glued(t) { script(nonblank(t)) } else { None }
}
pub open spec fn judged(s: Seq<char>, r: core::result::Result<E, nom::Err<SyntaxError>>) -> bool {
    exists|t: Seq<Token>, d: Seq<Diagnostic>| #[trigger] tiles(s, t, d, 0, bl(s) as int)
        && match r { Ok(e) => outcome(toks_of(s, t), d) == Some(e), Err(_) => outcome(toks_of(s, t), d) is None }
}

#[verifier::opaque]
pub open spec fn bad(d: Seq<Diagnostic>) -> nat decreases d.len()
{ if d.len() == 0 { 0 } else { (if d[0] is Valid { 0nat } else { 1nat }) + bad(d.skip(1)) } }
pub proof fn lemma_bad(d: Seq<Diagnostic>)
    ensures (bad(d) == 0) == all_valid(d),
    decreases d.len(),
{
    reveal(bad); reveal(all_valid);
    if d.len() > 0 {
        lemma_bad(d.skip(1));
        if all_valid(d) { assert forall|i: int| 0 <= i < d.len() - 1 implies (#[trigger] d.skip(1)[i]) is Valid by { assert(d[i + 1] is Valid); } assert(d[0] is Valid); }
        if d[0] is Valid && all_valid(d.skip(1)) { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) is Valid by { if i > 0 { assert(d.skip(1)[i - 1] is Valid); } } }
    }
}
pub proof fn lemma_glued(t: Ts, k: int)
    requires 0 <= k < t.len() - 1,
    ensures glued(t[k], t[k + 1]) ==> !none_glued(t),
{ reveal(none_glued); assert(glued_at(t, k) == glued(t[k], t[k + 1])); }
pub proof fn lemma_nonblank(t: Ts, k: int)
    requires 0 <= k < t.len(),
    ensures nonblank(t.take(k + 1)) == (if blank(t[k].kind) { nonblank(t.take(k)) } else { nonblank(t.take(k)).push(t[k]) }),
        nonblank(t.take(0)) == Ts::empty(),
{ reveal(nonblank); assert(t.take(k + 1).drop_last() =~= t.take(k)); assert(t.take(0) =~= Ts::empty()); }
/// cutting a text after a well-formed string literal does not change the literal
pub proof fn lemma_inner_cut(s: Seq<char>, n: int)
    requires !s_inner(s).1, s_inner(s).0 <= n <= s.len(),
    ensures s_inner(s.take(n)) == s_inner(s),
    decreases s.len(),
{
    reveal(s_inner);
    let c = s.take(n);
    if s.len() == 0 || s[0] == '"' { }
    else if s[0] == '\\' {
        lemma_escape(s);
        let m = s_escape(s).0 as int;
        lemma_escape_cut(s, n);
        lemma_inner_cut(s.skip(m), n - m);
        assert(c.skip(m) =~= s.skip(m).take(n - m));
    } else {
        lemma_inner_cut(s.skip(1), n - 1);
        assert(c.skip(1) =~= s.skip(1).take(n - 1));
    }
}
pub proof fn lemma_escape_cut(s: Seq<char>, n: int)
    requires s.len() > 0, !s_escape(s).1, s_escape(s).0 <= n <= s.len(),
    ensures s_escape(s.take(n)) == s_escape(s),
{
    let c = s.take(n);
    if s.len() >= 3 && !simple_escape(s[1]) {
        let h = hexrun(s.skip(3), 5);
        lemma_hexrun(s.skip(3), 5);
        assert(c.skip(3) =~= s.skip(3).take(n - 3));
        assert forall|i: int| 0 <= i < h implies is_hex(#[trigger] c.skip(3)[i]) by { assert(s.skip(3)[i] == c.skip(3)[i]); }
        if h < 5 { assert(c.skip(3)[h as int] == s[3 + h as int]); }
        lemma_hexrun_is(c.skip(3), 5, h);
        assert(c.subrange(3, 3 + h as int) =~= s.subrange(3, 3 + h as int));
    }
}
pub proof fn lemma_good_token(s: Seq<char>, t: Token, d: Diagnostic)
    requires tok_at(s, t, d), d is Valid,
    ensures tok_in(s, t),
{
    if t.kind == TokenKind::StringLiteral {
        let a = cix(s, t.range.start as nat); let b = cix(s, t.range.end as nat); let x = s.skip(a);
        assert(at(s, t.range.end as nat, b));
        assert(starts_quote(x));
        let n = (s_string(x)->0).0 as int;
        lemma_inner(x.skip(1));
        lemma_inner_cut(x.skip(1), n - 1);
        assert(tok_text(s, t) =~= x.take(n));
        assert(x.take(n).skip(1) =~= x.skip(1).take(n - 1));
    }
}
pub proof fn lemma_script_tiles(s: Seq<char>, t: Seq<Token>, d: Seq<Diagnostic>)
    requires tiles(s, t, d, 0, bl(s) as int),
    ensures t.len() == d.len(), t.len() == toks_of(s, t).len(),
        forall|i: int| 0 <= i < t.len() ==> tok_at(s, #[trigger] t[i], d[i]),
        forall|i: int| 0 <= i < t.len() - 1 ==> #[trigger] joined(t, i),
        all_valid(d) ==> forall|i: int| 0 <= i < t.len() ==> tok_in(s, #[trigger] t[i]),
{
    hide(tok_at); hide(tok_in);
    lemma_at_ends(s);
    lemma_tiles(s, t, d, 0, bl(s) as int);
    lemma_adjacent(s, t, d, bl(s) as int);
    if all_valid(d) {
        reveal(all_valid);
        assert forall|i: int| 0 <= i < t.len() implies tok_in(s, #[trigger] t[i]) by { assert(d[i] is Valid); lemma_good_token(s, t[i], d[i]); }
    }
}
pub proof fn lemma_adjacent(s: Seq<char>, t: Seq<Token>, d: Seq<Diagnostic>, b: int)
    requires tiles(s, t, d, 0, b),
    ensures t.len() > 0 ==> t.last().range.end == b, forall|i: int| 0 <= i < t.len() - 1 ==> #[trigger] joined(t, i),
    decreases t.len(),
{
    reveal(tiles);
    if t.len() > 0 {
        let u = t.drop_last();
        lemma_adjacent(s, u, d.drop_last(), t.last().range.start as int);
        assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] joined(t, i) by {
            if i < t.len() - 2 { assert(joined(u, i)); } else { assert(u.last() == t[i]); }
        }
    }
}
@{R02}pub open spec fn all_of(d: Seq<Diagnostic>, v: Seq<Diagnostic>) -> bool { forall|i: int| 0 <= i < v.len() ==> d.contains(#[trigger] v[i]) }
@{R02}pub open spec fn all_inside(s: Seq<char>, d: Seq<Diagnostic>) -> bool { forall|i: int| 0 <= i < d.len() ==> diag_inside(s, #[trigger] d[i]) }
@{R02}pub proof fn lemma_two(s: Seq<char>, a: Token, b: Token)
@{R02}    requires tok_in(s, a), tok_in(s, b), a.range.end == b.range.start,
@{R02}    ensures inside(s, StrSlice { start: a.range.start, end: b.range.end }),
@{R02}{ }
@{R02}/// two words without a blank between them
@{R02}pub open spec fn two_words(t: Seq<Token>, x: StrSlice) -> bool {
@{R02}    exists|i: int| 0 <= i < t.len() - 1 && #[trigger] joined(t, i) && wordlike(t[i].kind) && wordlike(t[i + 1].kind) && x == (StrSlice { start: t[i].range.start, end: t[i + 1].range.end })
@{R02}}
@{R02}/// R02: what a syntax error marks: what the lexer found wrong, two words without a blank between them, or a token or the end of the text
@{R02}pub open spec fn marked(s: Seq<char>, e: SyntaxError) -> bool {
@{R02}    exists|t: Seq<Token>, d: Seq<Diagnostic>| #[trigger] tiles(s, t, d, 0, bl(s) as int) && (match e {
@{R02}        SyntaxError::TokenizationErrors(v) => forall|i: int| 0 <= i < v@.len() ==> d.contains(#[trigger] v@[i]),
@{R02}        _ => error_marks(t, s, e) || (e is Expected && two_words(t, e->input)),
@{R02}    })
@{R02}}
@{R02}pub proof fn lemma_marks_inside(t: Seq<Token>, s: Seq<char>, e: SyntaxError)
@{R02}    requires error_marks(t, s, e), forall|i: int| 0 <= i < t.len() ==> tok_in(s, #[trigger] t[i]),
@{R02}    ensures error_inside(s, e),
@{R02}    decreases e,
@{R02}{
@{R02}    reveal(error_marks); reveal(marks); lemma_at_ends(s);
@{R02}    match e { SyntaxError::NomError { at, cause, .. } => { match cause { Some(c) => lemma_marks_inside(t, s, *c), None => {} } } _ => {} }
@{R02}}
@{R02}pub proof fn lemma_told(s: Seq<char>, t: Seq<Token>, d: Seq<Diagnostic>)
@{R02}    requires tiles(s, t, d, 0, bl(s) as int), forall|i: int| 0 <= i < t.len() ==> tok_in(s, #[trigger] t[i]),
@{R02}    ensures forall|u: Seq<Token>, e: SyntaxError| among(t, u) && #[trigger] error_marks(u, s, e) ==> error_inside(s, e) && marked(s, e),
@{R02}{
@{R02}    assert forall|u: Seq<Token>, e: SyntaxError| among(t, u) && #[trigger] error_marks(u, s, e) implies error_inside(s, e) && marked(s, e) by { lemma_among(t, u, s, e); lemma_marks_inside(t, s, e); reveal(error_marks); }
@{R02}}
@{R02}/// what the lexer finds wrong is in the text (T01, H01)
@{R02}pub proof fn lemma_all_inside(s: Seq<char>, t: Seq<Token>, d: Seq<Diagnostic>)
@{R02}    requires tiles(s, t, d, 0, bl(s) as int),
@{R02}    ensures all_inside(s, d),
@{R02}{
@{R02}    hide(tok_in);
@{R02}    lemma_script_tiles(s, t, d);
@{R02}    assert forall|i: int| 0 <= i < d.len() implies diag_inside(s, #[trigger] d[i]) by { assert(tok_at(s, t[i], d[i])); }
@{R02}}
/// starts with a literal
pub open spec fn literal(t: Ts) -> bool {
    t.len() > 0 && t[0].txt != "'"@ && t[0].txt != "{"@ && t[0].txt != "["@
    && (t[0].txt != "("@ && (t[0].kind is IntegerLiteral || t[0].kind is FloatLiteral || t[0].kind is StringLiteral || t[0].kind is BooleanLiteral || t[0].txt == "None"@))
}
/// P02: a chain groups from the left: its last operator is applied to everything before it
pub proof fn theorem_left(h: E, s: Seq<(String, E)>)
    ensures s.len() == 0 ==> grp(h, s) == h,
        s.len() > 0 ==> grp(h, s) == group_(app(E::Symbol(s.last().0), two_(grp(h, s.drop_last()), s.last().1))),
    decreases s.len(),
{
    def_grp(h, s);
    if s.len() > 0 {
        let g = group_(app(E::Symbol(s[0].0), two_(h, s[0].1)));
        theorem_left(g, s.skip(1));
        def_grp(h, s.drop_last());
        if s.len() == 1 { def_grp(g, s.skip(1)); assert(s.last() == s[0]); }
        else {
            assert(s.skip(1).drop_last() =~= s.drop_last().skip(1));
            assert(s.skip(1).last() == s.last());
        }
    }
}
/// P02: every operand of a chain of level k was read by the next tighter level
pub proof fn theorem_operands(k: nat, t: Ts)
    ensures match tail(k, t) {
        PR::Got(u, s) => s.len() > 0 ==> op_at(k, t[0].txt) && s[0].0 == mkstr(t[0].txt) && (match next(k, t.skip(1)) {
            PR::Got(w, x) => s[0].1 == x && tail(k, w) == PR::Got(u, s.skip(1)), _ => false }),
        _ => true,
    },
{
    def_tail(k, t);
    match tail(k, t) {
        PR::Got(u, s) => { if s.len() > 0 { match next(k, t.skip(1)) {
            PR::Got(w, x) => { match tail(k, w) { PR::Got(u2, s2) => { assert((seq![(mkstr(t[0].txt), x)] + s2).skip(1) =~= s2); }, _ => {} } }
            _ => {}
        } } }
        _ => {}
    }
}
/// P01: only the tokens other than blanks and comments matter to the program
pub proof fn theorem_blanks(a: Ts, d: Seq<Diagnostic>, b: Ts, e: Seq<Diagnostic>)
    requires nonblank(a) == nonblank(b), outcome(a, d) is Some, all_valid(e), none_glued(b),
    ensures outcome(a, d) == outcome(b, e),
{ }
/// P03: what the tokenizer takes for an integer is one
pub proof fn lemma_run_all(s: Seq<char>)
    ensures run(s, f_digit()) <= s.len(), forall|i: int| 0 <= i < run(s, f_digit()) ==> is_digit(#[trigger] s[i]),
    decreases s.len(),
{
    reveal(run);
    if s.len() > 0 && is_digit(s[0]) {
        lemma_run_all(s.skip(1));
        assert forall|i: int| 0 <= i < run(s, f_digit()) implies is_digit(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
    }
}
pub proof fn theorem_integer(s: Seq<char>, t: Token, d: Diagnostic)
    requires tok_at(s, t, d), t.kind is IntegerLiteral,
    ensures written(tok_text(s, t)) is Some,
{
    lemma_starts_lits();
    let a = cix(s, t.range.start as nat); let b = cix(s, t.range.end as nat); let x = s.skip(a);
    assert(at(s, t.range.end as nat, b));
    let w = tok_text(s, t);
    assert(s_number(x) is Some);
    assert(w =~= x.take(b - a));
    let sign: int = if starts(x, "-"@) { 1 } else { 0 };
    let y = x.skip(sign);
    lemma_run_all(y);
    assert(w.skip(sign) =~= y.take(b - a - sign));
    assert forall|i: int| 0 <= i < b - a - sign implies is_digit(#[trigger] w.skip(sign)[i]) by { assert(y[i] == w.skip(sign)[i]); }
    assert(digits(w.skip(sign)));
    assert(w.skip(0) =~= w);
}

// ---------------------------------------------------------------- the parser against the grammar
pub type IR<'a, T> = core::result::Result<(Tokens<'a>, T), nom::Err<SyntaxError>>;
pub open spec fn pr<T>(r: IR<T>) -> PR<T> {
    match r { Ok((b, x)) => PR::Got(b.toks(), x), Err(nom::Err::Error(_)) => PR::No, Err(_) => PR::Fatal }
}
/// what is left are tokens of the same script, fewer of them
pub open spec fn on<T>(a: Tokens, r: IR<T>) -> bool {
    (match r { Ok((b, _)) => b.ok() && b.str == a.str && b.slice@.len() < a.slice@.len(), Err(_) => true })
@{R02}    && (match r { Ok(_) => true, Err(e) => placed(a, e) })
@{R02}    && (match r { Ok((b, _)) => rest_of(a, b), Err(_) => true })
}
/// the operators and operands collected by a chain
pub open spec fn ops_of(s: Seq<char>, v: Seq<(Token, E)>) -> Seq<(String, E)> { v.map_values(|x: (Token, E)| (mkstr(tok_text(s, x.0)), x.1)) }
pub open spec fn all_in(s: Seq<char>, v: Seq<(Token, E)>) -> bool { forall|i: int| 0 <= i < v.len() ==> tok_in(s, (#[trigger] v[i]).0) }
pub open spec fn back(s: Seq<(String, E)>) -> Seq<(String, E)> { s.reverse() }
pub proof fn lemma_ops_push(s: Seq<char>, v: Seq<(Token, E)>, x: (Token, E))
    ensures ops_of(s, v.push(x)) == ops_of(s, v).push((mkstr(tok_text(s, x.0)), x.1)),
{ assert(ops_of(s, v.push(x)) =~= ops_of(s, v).push((mkstr(tok_text(s, x.0)), x.1))); }
pub open spec fn all_pipes(s: Seq<char>, v: Seq<(Token, E)>) -> bool { forall|i: int| 0 <= i < v.len() ==> pipe_op(tok_text(s, (#[trigger] v[i]).0)) }
pub proof fn lemma_ops_first(s: Seq<char>, v: Seq<(Token, E)>)
    ensures v.len() > 0 ==> ops_of(s, v).skip(1) == ops_of(s, v.skip(1)),
{ if v.len() > 0 { assert(ops_of(s, v).skip(1) =~= ops_of(s, v.skip(1))); } }
/// the next operator is the last one of the reversed list
pub proof fn lemma_back(s: Seq<char>, v: Seq<(Token, E)>)
    requires v.len() > 0,
    ensures ops_of(s, v.reverse()).len() == v.len(), ops_of(s, v.reverse())[0] == (mkstr(tok_text(s, v.last().0)), v.last().1),
        ops_of(s, v.reverse()).skip(1) == ops_of(s, v.drop_last().reverse()),
{ assert(ops_of(s, v.reverse()).skip(1) =~= ops_of(s, v.drop_last().reverse())); }
} // verus!
verus! {
//@ end
//@ file src/env.rs
//@ fn Environment::new
    ensures r == no_env(),
//@ file src/parser.rs
//@ fn SyntaxError::expected
    ensures r is Error, r->Error_0 is Expected, r->Error_0->input == $0,
//@ fn SyntaxError::unrecoverable
    ensures r is Failure, r->Failure_0 is Expected, r->Failure_0->input == $0,
@{R02}//@ fn SyntaxError::from_error_kind@ParseError<Tokens<'_>> name=from_error_kind
@{R02}    requires $0.ok(),
@{R02}    ensures error_marks($0.slice@, $0.str@, r),
@{R02}//@ entry
@{R02}    proof { reveal(Tokens::ok); reveal(marks); reveal(error_marks); }
@{R02}//@ fn SyntaxError::append@ParseError<Tokens<'_>> name=append
@{R02}    requires $0.ok(), error_marks($0.slice@, $0.str@, $2),
@{R02}    ensures error_marks($0.slice@, $0.str@, r),
@{R02}//@ entry
@{R02}    proof { reveal(Tokens::ok); reveal(marks); reveal(error_marks); }
@{R02}//@ fn SyntaxError::from_char@ParseError<Tokens<'_>> name=from_char
@{R02}    requires $0.ok(),
@{R02}    ensures error_marks($0.slice@, $0.str@, r),
@{R02}//@ entry
@{R02}    proof { reveal(Tokens::ok); reveal(marks); reveal(error_marks); }
@{R02}//@ fn SyntaxError::or@ParseError<Tokens<'_>> name=or
@{R02}    ensures forall|t: Seq<Token>, s: Seq<char>| error_marks(t, s, $0) && error_marks(t, s, $1) ==> #[trigger] error_marks(t, s, r),
//@ fn kind
    requires $1.ok(),
    ensures on($1, r), match r {
        Ok((b, x)) => isk($1.toks(), $0) && b.toks() == $1.toks().skip(1) && x == $1.slice@[0].range && tok_in($1.str@, $1.slice@[0])
@{R02}            && marks($1.slice@, $1.str@, x)
        ,
        Err(e) => e is Error && !isk($1.toks(), $0) },
//@ entry
    proof { reveal(Tokens::ok); reveal(marks); }
//@ fn text
    requires $1.ok(),
    ensures on($1, r), match r {
        Ok((b, x)) => tx($1.toks(), $0@) && b.toks() == $1.toks().skip(1) && x == $1.slice@[0] && tok_in($1.str@, x) && tok_text($1.str@, x) == $0@,
        Err(e) => e is Error && !tx($1.toks(), $0@) },
//@ entry
    proof { reveal(Tokens::ok); }
//@ fn empty proved=P02,R02
    ensures match r { Ok((b, _)) => b == $0 && $0.slice@.len() == 0, Err(e) => e is Error && $0.slice@.len() > 0 && placed($0, e) },
//@ fn no_terminating_punctuation proved=P02,R02
    requires $0.ok(),
    ensures match r { Ok(_) => !ends($0.toks()), Err(e) => e is Error && ends($0.toks()) && placed($0, e) },
//@ entry
    proof { reveal(Tokens::ok); }
//@ fn parse_symbol proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == name($0.toks()),
//@ fn parse_operator proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == oper($0.toks()),
//@ fn parse_operator_as_symbol proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == opsym($0.toks()),
//@ fn parse_integer proved=P03,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == (if isk($0.toks(), TokenKind::IntegerLiteral) { match written($0.toks()[0].txt) { Some(n) if fits(n) => PR::Got($0.toks().skip(1), n as i64), _ => PR::Fatal } } else { PR::No }),
//@ fn parse_float proved=P03,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == (if isk($0.toks(), TokenKind::FloatLiteral) { match float_of($0.toks()[0].txt) { Some(n) => PR::Got($0.toks().skip(1), n), _ => PR::Fatal } } else { PR::No }),
//@ fn parse_boolean proved=P03,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == (if isk($0.toks(), TokenKind::BooleanLiteral) { PR::Got($0.toks().skip(1), $0.toks()[0].txt == "True"@) } else { PR::No }),
//@ fn parse_string proved=P03,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == (if isk($0.toks(), TokenKind::StringLiteral) { PR::Got($0.toks().skip(1), mkstr(unquoted($0.toks()[0].txt))) } else { PR::No }),
//@ fn parse_none proved=P03,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == (if tx($0.toks(), "None"@) { PR::Got($0.toks().skip(1), ()) } else if $0.toks().len() >= 2 && $0.toks()[0].txt == "("@ && $0.toks()[1].txt == ")"@ { PR::Got($0.toks().skip(2), ()) } else { PR::No }),
//@ entry
    proof { reveal(Tokens::ok); }
//@ fn parse_quote proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == quote_($0.toks()),
    decreases $0.slice@.len(), 0int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_quote_(gin.toks()); }
//@ fn parse_not proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == not_($0.toks()),
    decreases $0.slice@.len(), 0int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_not_(gin.toks()); }
//@ fn parse_assign proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == assign($0.toks()),
    decreases $0.slice@.len(), 0int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_assign(gin.toks()); }
//@ fn parse_group proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == group($0.toks()),
    decreases $0.slice@.len(), 0int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_group(gin.toks()); }
//@ fn parse_list proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == list($0.toks()),
    decreases $0.slice@.len(), 0int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_list(gin.toks()); def_items(gin.toks().skip(1)); }
//@ before_loop 0
//@ loop 0
    invariant_except_break vx_err1 is None,
    invariant vx_cur1.ok(), vx_cur1.str == gin.str, vx_cur1.slice@.len() < gin.slice@.len(),
@{!R02}        vx_err1 is None ==> prep(vx_acc1@, more_items(vx_cur1.toks())) == items(gin.toks().skip(1)),
@{!R02}        vx_err1 is Some ==> !(vx_err1->0 is Error) && items(gin.toks().skip(1)) is Fatal,
@{R02}        rest_of(gin, vx_cur1), vx_err1 is Some ==> placed(gin, vx_err1->0),
@{!R02}    ensures vx_err1 is None ==> items(gin.toks().skip(1)) == PR::Got(vx_cur1.toks(), vx_acc1@),
    decreases vx_cur1.slice@.len(),
//@ loop_start 0
@{!R02}    proof { def_more_items(vx_cur1.toks()); }
//@ fn parse_map proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == map_($0.toks()),
    decreases $0.slice@.len(), 0int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_map_(gin.toks()); def_pairs(gin.toks().skip(1)); def_pair_(gin.toks().skip(1)); }
//@ before_loop 0
//@ loop 0
    invariant_except_break vx_err1 is None,
    invariant vx_cur1.ok(), vx_cur1.str == gin.str, vx_cur1.slice@.len() < gin.slice@.len(),
@{!R02}        vx_err1 is None ==> prep(vx_acc1@, more_pairs(vx_cur1.toks())) == pairs(gin.toks().skip(1)),
@{!R02}        vx_err1 is Some ==> !(vx_err1->0 is Error) && pairs(gin.toks().skip(1)) is Fatal,
@{R02}        rest_of(gin, vx_cur1), vx_err1 is Some ==> placed(gin, vx_err1->0),
@{!R02}    ensures vx_err1 is None ==> pairs(gin.toks().skip(1)) == PR::Got(vx_cur1.toks(), vx_acc1@),
    decreases vx_cur1.slice@.len(),
//@ loop_start 0
@{!R02}    proof { def_more_pairs(vx_cur1.toks()); if vx_cur1.toks().len() > 0 { def_pair_(vx_cur1.toks().skip(1)); } }
//@ fn parse_for_loop proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == for_($0.toks()),
    decreases $0.slice@.len(), 0int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_for_(gin.toks()); }
//@ fn parse_if proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == if_($0.toks()),
    decreases $0.slice@.len(), 0int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_if_(gin.toks()); }
//@ fn parse_callable proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == callable($0.toks()),
    decreases $0.slice@.len(), 0int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_callable(gin.toks()); }
//@ fn parse_block proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == block($0.toks()),
    decreases $0.slice@.len(), 0int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_block(gin.toks()); }
//@ fn parse_apply proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == apply($0.toks()),
    decreases $0.slice@.len(), 28int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_apply(gin.toks());  }
//@ after_let f 0
    let ghost gt = input.toks();
@{!R02}    proof { def_args(gt); }
//@ before_loop 0
//@ loop 0
    invariant_except_break vx_err1 is None,
    invariant vx_cur1.ok(), vx_cur1.str == gin.str, vx_cur1.slice@.len() < gin.slice@.len(),
@{!R02}        vx_err1 is None ==> prep(vx_acc1@, args(vx_cur1.toks())) == args(gt),
@{!R02}        vx_err1 is Some ==> !(vx_err1->0 is Error) && args(gt) is Fatal,
@{R02}        rest_of(gin, vx_cur1), vx_err1 is Some ==> placed(gin, vx_err1->0),
@{!R02}    ensures vx_err1 is None ==> args(gt) == PR::Got(vx_cur1.toks(), vx_acc1@),
    decreases vx_cur1.slice@.len(),
//@ loop_start 0
@{!R02}    proof { def_args(vx_cur1.toks()); }
//@ fn parse_apply_operator proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == apply_op($0.toks()),
    decreases $0.slice@.len(), 28int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_apply_op(gin.toks());  }
//@ after_let f 0
    let ghost gt = input.toks();
@{!R02}    proof { def_args(gt); }
//@ before_loop 0
//@ loop 0
    invariant_except_break vx_err1 is None,
    invariant vx_cur1.ok(), vx_cur1.str == gin.str, vx_cur1.slice@.len() < gin.slice@.len(),
@{!R02}        vx_err1 is None ==> prep(vx_acc1@, args(vx_cur1.toks())) == args(gt),
@{!R02}        vx_err1 is Some ==> !(vx_err1->0 is Error) && args(gt) is Fatal,
@{R02}        rest_of(gin, vx_cur1), vx_err1 is Some ==> placed(gin, vx_err1->0),
@{!R02}    ensures vx_err1 is None ==> args(gt) == PR::Got(vx_cur1.toks(), vx_acc1@),
    decreases vx_cur1.slice@.len(),
//@ loop_start 0
@{!R02}    proof { def_args(vx_cur1.toks()); }
//@ fn parse_expression_prec_three proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == three($0.toks()),
    decreases $0.slice@.len(), 14int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_three(gin.toks()); def_chain(3, gin.toks()); def_next(3, gin.toks()); }
//@ before_loop 0
    let ghost g0 = vx_cur1;
//@ loop 0
    invariant_except_break vx_err1 is None,
    invariant vx_cur1.ok(), vx_cur1.str == gin.str, vx_cur1.slice@.len() < gin.slice@.len(), all_in(gin.str@, vx_acc1@),
@{!R02}        vx_err1 is None ==> prep(ops_of(gin.str@, vx_acc1@), tail(3, vx_cur1.toks())) == tail(3, g0.toks()),
@{!R02}        vx_err1 is Some ==> !(vx_err1->0 is Error) && tail(3, g0.toks()) is Fatal,
@{R02}        rest_of(gin, vx_cur1), vx_err1 is Some ==> placed(gin, vx_err1->0),
@{!R02}    ensures vx_err1 is None ==> tail(3, g0.toks()) == PR::Got(vx_cur1.toks(), ops_of(gin.str@, vx_acc1@)),
    decreases vx_cur1.slice@.len(),
//@ loop_start 0
@{!R02}    proof { def_tail(3, vx_cur1.toks()); if vx_cur1.toks().len() > 0 { def_next(3, vx_cur1.toks().skip(1)); } }
    let ghost ga = vx_acc1@;
//@ loop_end 0
    proof { lemma_ops_push(gin.str@, ga, vx_acc1@.last()); }
//@ after_let list 0
    let ghost gall = list@;
    proof { def_grp(head, ops_of(gin.str@, gall)); }
//@ before_loop 1
    let ghost gh = head; let ghost gl = list@;
    proof { assert(list@.reverse() =~= gall); }
//@ loop 1
    invariant all_in(gin.str@, list@), grp(head, ops_of(gin.str@, list@.reverse())) == grp(gh, ops_of(gin.str@, gl.reverse())),
    ensures list@.len() == 0,
    decreases list@.len(),
//@ loop_start 1
    let ghost gp = list@; let ghost gb = head;
    proof { if gp.len() > 0 { lemma_back(gin.str@, gp); def_grp(gb, ops_of(gin.str@, gp.reverse())); } }
//@ loop_end 1
    proof { assert(head == group_(app(E::Symbol(mkstr(tok_text(gin.str@, gp.last().0))), two_(gb, gp.last().1)))); }
//@ after_loop 1
    proof { def_grp(head, ops_of(gin.str@, list@.reverse())); }
//@ fn parse_expression_prec_four proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == four($0.toks()),
    decreases $0.slice@.len(), 18int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_four(gin.toks()); def_chain(4, gin.toks()); def_next(4, gin.toks()); }
//@ before_loop 0
    let ghost g0 = vx_cur1;
//@ loop 0
    invariant_except_break vx_err1 is None,
    invariant vx_cur1.ok(), vx_cur1.str == gin.str, vx_cur1.slice@.len() < gin.slice@.len(), all_in(gin.str@, vx_acc1@),
@{!R02}        vx_err1 is None ==> prep(ops_of(gin.str@, vx_acc1@), tail(4, vx_cur1.toks())) == tail(4, g0.toks()),
@{!R02}        vx_err1 is Some ==> !(vx_err1->0 is Error) && tail(4, g0.toks()) is Fatal,
@{R02}        rest_of(gin, vx_cur1), vx_err1 is Some ==> placed(gin, vx_err1->0),
@{!R02}    ensures vx_err1 is None ==> tail(4, g0.toks()) == PR::Got(vx_cur1.toks(), ops_of(gin.str@, vx_acc1@)),
    decreases vx_cur1.slice@.len(),
//@ loop_start 0
@{!R02}    proof { def_tail(4, vx_cur1.toks()); if vx_cur1.toks().len() > 0 { def_next(4, vx_cur1.toks().skip(1)); } }
    let ghost ga = vx_acc1@;
//@ loop_end 0
    proof { lemma_ops_push(gin.str@, ga, vx_acc1@.last()); }
//@ after_let list 0
    let ghost gall = list@;
    proof { def_grp(head, ops_of(gin.str@, gall)); }
//@ before_loop 1
    let ghost gh = head; let ghost gl = list@;
    proof { assert(list@.reverse() =~= gall); }
//@ loop 1
    invariant all_in(gin.str@, list@), grp(head, ops_of(gin.str@, list@.reverse())) == grp(gh, ops_of(gin.str@, gl.reverse())),
    ensures list@.len() == 0,
    decreases list@.len(),
//@ loop_start 1
    let ghost gp = list@; let ghost gb = head;
    proof { if gp.len() > 0 { lemma_back(gin.str@, gp); def_grp(gb, ops_of(gin.str@, gp.reverse())); } }
//@ loop_end 1
    proof { assert(head == group_(app(E::Symbol(mkstr(tok_text(gin.str@, gp.last().0))), two_(gb, gp.last().1)))); }
//@ after_loop 1
    proof { def_grp(head, ops_of(gin.str@, list@.reverse())); }
//@ fn parse_range proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == range($0.toks()),
    decreases $0.slice@.len(), 19int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_range(gin.toks()); }
//@ fn parse_expression_prec_five proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == five($0.toks()),
    decreases $0.slice@.len(), 22int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_five(gin.toks()); def_chain(5, gin.toks()); def_next(5, gin.toks()); }
//@ before_loop 0
    let ghost g0 = vx_cur1;
//@ loop 0
    invariant_except_break vx_err1 is None,
    invariant vx_cur1.ok(), vx_cur1.str == gin.str, vx_cur1.slice@.len() < gin.slice@.len(), all_in(gin.str@, vx_acc1@),
@{!R02}        vx_err1 is None ==> prep(ops_of(gin.str@, vx_acc1@), tail(5, vx_cur1.toks())) == tail(5, g0.toks()),
@{!R02}        vx_err1 is Some ==> !(vx_err1->0 is Error) && tail(5, g0.toks()) is Fatal,
@{R02}        rest_of(gin, vx_cur1), vx_err1 is Some ==> placed(gin, vx_err1->0),
@{!R02}    ensures vx_err1 is None ==> tail(5, g0.toks()) == PR::Got(vx_cur1.toks(), ops_of(gin.str@, vx_acc1@)),
    decreases vx_cur1.slice@.len(),
//@ loop_start 0
@{!R02}    proof { def_tail(5, vx_cur1.toks()); if vx_cur1.toks().len() > 0 { def_next(5, vx_cur1.toks().skip(1)); } }
    let ghost ga = vx_acc1@;
//@ loop_end 0
    proof { lemma_ops_push(gin.str@, ga, vx_acc1@.last()); }
//@ after_let list 0
    let ghost gall = list@;
    proof { def_grp(head, ops_of(gin.str@, gall)); }
//@ before_loop 1
    let ghost gh = head; let ghost gl = list@;
    proof { assert(list@.reverse() =~= gall); }
//@ loop 1
    invariant all_in(gin.str@, list@), grp(head, ops_of(gin.str@, list@.reverse())) == grp(gh, ops_of(gin.str@, gl.reverse())),
    ensures list@.len() == 0,
    decreases list@.len(),
//@ loop_start 1
    let ghost gp = list@; let ghost gb = head;
    proof { if gp.len() > 0 { lemma_back(gin.str@, gp); def_grp(gb, ops_of(gin.str@, gp.reverse())); } }
//@ loop_end 1
    proof { assert(head == group_(app(E::Symbol(mkstr(tok_text(gin.str@, gp.last().0))), two_(gb, gp.last().1)))); }
//@ after_loop 1
    proof { def_grp(head, ops_of(gin.str@, list@.reverse())); }
//@ fn parse_expression_prec_six proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == six($0.toks()),
    decreases $0.slice@.len(), 26int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_six(gin.toks()); def_chain(6, gin.toks()); def_next(6, gin.toks()); }
//@ before_loop 0
    let ghost g0 = vx_cur1;
//@ loop 0
    invariant_except_break vx_err1 is None,
    invariant vx_cur1.ok(), vx_cur1.str == gin.str, vx_cur1.slice@.len() < gin.slice@.len(), all_in(gin.str@, vx_acc1@),
@{!R02}        vx_err1 is None ==> prep(ops_of(gin.str@, vx_acc1@), tail(6, vx_cur1.toks())) == tail(6, g0.toks()),
@{!R02}        vx_err1 is Some ==> !(vx_err1->0 is Error) && tail(6, g0.toks()) is Fatal,
@{R02}        rest_of(gin, vx_cur1), vx_err1 is Some ==> placed(gin, vx_err1->0),
@{!R02}    ensures vx_err1 is None ==> tail(6, g0.toks()) == PR::Got(vx_cur1.toks(), ops_of(gin.str@, vx_acc1@)),
    decreases vx_cur1.slice@.len(),
//@ loop_start 0
@{!R02}    proof { def_tail(6, vx_cur1.toks()); if vx_cur1.toks().len() > 0 { def_next(6, vx_cur1.toks().skip(1)); } }
    let ghost ga = vx_acc1@;
//@ loop_end 0
    proof { lemma_ops_push(gin.str@, ga, vx_acc1@.last()); }
//@ after_let list 0
    let ghost gall = list@;
    proof { def_grp(head, ops_of(gin.str@, gall)); }
//@ before_loop 1
    let ghost gh = head; let ghost gl = list@;
    proof { assert(list@.reverse() =~= gall); }
//@ loop 1
    invariant all_in(gin.str@, list@), grp(head, ops_of(gin.str@, list@.reverse())) == grp(gh, ops_of(gin.str@, gl.reverse())),
    ensures list@.len() == 0,
    decreases list@.len(),
//@ loop_start 1
    let ghost gp = list@; let ghost gb = head;
    proof { if gp.len() > 0 { lemma_back(gin.str@, gp); def_grp(gb, ops_of(gin.str@, gp.reverse())); } }
//@ loop_end 1
    proof { assert(head == group_(app(E::Symbol(mkstr(tok_text(gin.str@, gp.last().0))), two_(gb, gp.last().1)))); }
//@ after_loop 1
    proof { def_grp(head, ops_of(gin.str@, list@.reverse())); }
//@ fn parse_expression_prec_two proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == two($0.toks()),
    decreases $0.slice@.len(), 11int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_two(gin.toks());  }
//@ after_let head 0
    let ghost gt = input.toks();
//@ before_loop 0
//@ loop 0
    invariant_except_break vx_err1 is None,
    invariant vx_cur1.ok(), vx_cur1.str == gin.str, vx_cur1.slice@.len() < gin.slice@.len(),
@{!R02}        vx_err1 is None ==> prep(vx_acc1@, ats(vx_cur1.toks())) == ats(gt),
@{!R02}        vx_err1 is Some ==> !(vx_err1->0 is Error) && ats(gt) is Fatal,
@{R02}        rest_of(gin, vx_cur1), vx_err1 is Some ==> placed(gin, vx_err1->0),
@{!R02}    ensures vx_err1 is None ==> ats(gt) == PR::Got(vx_cur1.toks(), vx_acc1@),
    decreases vx_cur1.slice@.len(),
//@ loop_start 0
@{!R02}    proof { def_ats(vx_cur1.toks()); }
//@ fn parse_expression_prec_one proved=P02,P03,R02
    requires $0.ok(),
    ensures on($0, r),
@{!P03,R02}        pr(r) == one($0.toks()),
@{P03}        literal($0.toks()) ==> pr(r) == atom($0.toks()),
    decreases $0.slice@.len(), 10int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_one(gin.toks()); def_group(gin.toks()); def_quote_(gin.toks()); def_map_(gin.toks()); def_block(gin.toks()); def_list(gin.toks()); }
//@ fn parse_expression_prec_seven proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == seven($0.toks()),
    decreases $0.slice@.len(), 30int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_seven(gin.toks()); }
//@ fn parse_expression proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == expr($0.toks()),
    decreases $0.slice@.len(), 31int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_expr(gin.toks());  }
//@ before_loop 0
    let ghost g0 = vx_cur1;
//@ loop 0
    invariant_except_break vx_err1 is None,
    invariant vx_cur1.ok(), vx_cur1.str == gin.str, vx_cur1.slice@.len() < gin.slice@.len(), all_in(gin.str@, vx_acc1@), all_pipes(gin.str@, vx_acc1@),
@{!R02}        vx_err1 is None ==> prep(ops_of(gin.str@, vx_acc1@), pipes(vx_cur1.toks())) == pipes(g0.toks()),
@{!R02}        vx_err1 is Some ==> !(vx_err1->0 is Error) && pipes(g0.toks()) is Fatal,
@{R02}        rest_of(gin, vx_cur1), vx_err1 is Some ==> placed(gin, vx_err1->0),
@{!R02}    ensures vx_err1 is None ==> pipes(g0.toks()) == PR::Got(vx_cur1.toks(), ops_of(gin.str@, vx_acc1@)),
    decreases vx_cur1.slice@.len(),
//@ loop_start 0
@{!R02}    proof { def_pipes(vx_cur1.toks()); }
    let ghost ga = vx_acc1@;
//@ loop_end 0
    proof { lemma_ops_push(gin.str@, ga, vx_acc1@.last()); }
//@ before_loop 1
    let ghost gl = list@; let ghost gh = args@;
    proof { assert(gh =~= seq![head]); }
//@ loop 1
    invariant all_in(gin.str@, vx_it1@), all_pipes(gin.str@, vx_it1@), args@.len() > 0, args@.len() + vx_it1@.len() == gl.len() + 1,
        pipe_args(args@, ops_of(gin.str@, vx_it1@)) == pipe_args(gh, ops_of(gin.str@, gl)),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 1
    proof { lemma_ops_first(gin.str@, vx_it1@); def_pipe_args(args@, ops_of(gin.str@, vx_it1@)); }
//@ fn parse_statement proved=P02,R02
    requires $0.ok(),
    ensures on($0, r),
@{!R02}        pr(r) == statement($0.toks()),
    decreases $0.slice@.len(), 32int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_statement(gin.toks()); }
//@ fn parse_script_tokens proved=P02,R02
    requires $0.ok(),
@{R02}    ensures r is Err ==> placed($0, r->Err_0),
@{!R02}    ensures pr(r) == (if $1 { match stmts($0.toks()) { PR::Got(u, e) => if u.len() == 0 { PR::Got(u, e) } else { PR::No }, x => x } } else { stmts($0.toks()) }),
@{R02}        r is Ok ==> rest_of($0, (r->Ok_0).0),
        r is Ok ==> (r->Ok_0).0.ok() && (r->Ok_0).0.str == $0.str && (r->Ok_0).0.slice@.len() <= $0.slice@.len(),
    decreases $0.slice@.len(), 34int,
//@ entry
    let ghost gin = $0;
@{!R02}    proof { def_stmts(gin.toks());  }
//@ before_loop 0
//@ loop 0
    invariant_except_break vx_err1 is None,
    invariant vx_cur1.ok(), vx_cur1.str == gin.str, vx_cur1.slice@.len() <= gin.slice@.len(),
@{!R02}        vx_err1 is None ==> prep(vx_acc1@, statements(vx_cur1.toks())) == statements(gin.toks()),
@{!R02}        vx_err1 is Some ==> !(vx_err1->0 is Error) && statements(gin.toks()) is Fatal,
@{R02}        rest_of(gin, vx_cur1), vx_err1 is Some ==> placed(gin, vx_err1->0),
@{!R02}    ensures vx_err1 is None ==> statements(gin.toks()) == PR::Got(vx_cur1.toks(), vx_acc1@),
    decreases vx_cur1.slice@.len(),
//@ loop_start 0
@{!R02}    proof { def_statements(vx_cur1.toks()); }

//@ fn is_symbol_like proved=P01,R02
    ensures r == wordlike($0),
//@ fn parse_script proved=P01,R02
@{!R02}    ensures judged($0@, r),
@{R02}    ensures r is Err ==> error_inside($0@, err_of(r->Err_0)) && marked($0@, err_of(r->Err_0)),
//@ entry
    hide(tok_at); hide(tok_in);
    let ghost gin = $0@;
//@ after_let diagnostics 0
    let ghost gt = token_vec@; let ghost gd = diagnostics@; let ghost gs = toks_of(gin, gt);
    proof {
        lemma_at_ends(gin);
        assert(tiles(gin, gt, gd, 0, bl(gin) as int));
        lemma_script_tiles(gin, gt, gd);
        lemma_bad(gd);
@{R02}        lemma_all_inside(gin, gt, gd);
    }
//@ loop 0
    invariant vx_out1@.len() + bad(vx_it1@) == bad(gd),
@{R02}        all_inside(gin, vx_it1@), all_inside(gin, vx_out1@), all_of(gd, vx_it1@), all_of(gd, vx_out1@),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { reveal(bad); }
//@ after_loop 0
    proof { reveal(bad); }
//@ before_loop 1
    let ghost gw = vx_it2@;
    proof { assert(tokens.slice@ == gt); }
//@ loop 1
    invariant vx_it2@.len() <= gw.len(), vx_it2@ == gw.skip(gw.len() - vx_it2@.len()),
        forall|i: int| 0 <= i < gw.len() - vx_it2@.len() ==> !#[trigger] glued_at(gs, i),
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ loop_start 1
    let ghost gk = gw.len() - vx_it2@.len();
    proof { if vx_it2@.len() > 0 { assert(vx_it2@[0] == gw[gk]); assert(gw[gk]@ == gt.subrange(gk, gk + 2)); assert(gw[gk]@[0] == gt[gk]); assert(gw[gk]@[1] == gt[gk + 1]); assert(joined(gt, gk)); assert(gs[gk] == tok_of(gin, gt[gk])); assert(gs[gk + 1] == tok_of(gin, gt[gk + 1])); lemma_glued(gs, gk); } }
@{R02}    proof { if vx_it2@.len() > 0 { lemma_two(gin, gt[gk], gt[gk + 1]); } }
//@ after_loop 1
    proof { reveal(none_glued); assert(none_glued(gs)); }
//@ before_loop 2
    proof { reveal(nonblank); assert(gs.take(0) =~= Ts::empty()); assert(toks_of(gin, vx_out2@) =~= Ts::empty()); }
//@ loop 2
    invariant vx_it3@.len() <= gt.len(), vx_it3@ == gt.skip(gt.len() - vx_it3@.len()),
        toks_of(gin, vx_out2@) == nonblank(gs.take(gt.len() - vx_it3@.len())),
        forall|i: int| 0 <= i < vx_out2@.len() ==> tok_in(gin, #[trigger] vx_out2@[i]),
@{R02}        among(gt, vx_out2@),
    ensures vx_it3@.len() == 0,
    decreases vx_it3@.len(),
//@ loop_start 2
    let ghost gk = gt.len() - vx_it3@.len(); let ghost go = vx_out2@;
    proof { if vx_it3@.len() > 0 { assert(vx_it3@[0] == gt[gk]); lemma_nonblank(gs, gk); } }
//@ loop_end 2
    proof { if vx_out2@.len() > go.len() { assert(toks_of(gin, vx_out2@) =~= toks_of(gin, go).push(gs[gk])); } }
@{R02}    proof { if vx_out2@.len() > go.len() { assert(gt[gk].range == vx_out2@.last().range); } }
//@ after_loop 2
    proof { assert(gs.take(gt.len() as int) =~= gs); reveal(Tokens::ok); }
@{R02}    proof { lemma_told(gin, gt, gd); }
//@ raw
} // verus!
} // mod u
fn main() {}
//@ end
