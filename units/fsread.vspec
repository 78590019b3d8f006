//@ include pre.vspec
//@ include expr.vspec
//@ include std.vspec
//@ include coll.vspec
//@ include fsbase.vspec
//@ include argc.vspec
//@ default vclone streq ctx fmtshow exprfrom ren=push_str world=eval,exists,is_dir,is_file,is_symlink,symlink_metadata,metadata,try_exists,read_dir,read_to_string,read,canonicalize,glob,list_directory,get_dir_tree,fs_head,fs_tail,fs_canon,fs_ls,fs_exists,fs_isdir,fs_isfile,fs_read,fs_glob,fs_tree
//@ raw
verus! {
// ---------------------------------------------------------------- reading
/// the absolute path without links
pub uninterp spec fn canonical(w: VxWorld, p: Seq<char>) -> Option<Seq<char>>;
/// the paths that match a pattern, or errors met on the way; None when it is not a pattern
pub uninterp spec fn globbed(w: VxWorld, p: Seq<char>) -> Option<Seq<Option<Seq<char>>>>;
pub uninterp spec fn stripped(p: Seq<char>, dir: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn above(p: Seq<char>) -> Option<Seq<char>>;
pub mod axr {
    use super::*;
    verus! {
    pub broadcast axiom fn ax_lossy(p: Seq<char>) ensures unicode(p) ==> #[trigger] lossy(p) == p;
    pub broadcast axiom fn ax_joined(d: Seq<char>, p: Seq<char>) ensures unicode(d) && unicode(p) ==> unicode(#[trigger] joined(d, p));
    pub broadcast axiom fn ax_above(p: Seq<char>) ensures unicode(p) && above(p) is Some ==> unicode((#[trigger] above(p))->Some_0);
    /// looking at a directory changes neither the directories nor what is in them (nor does anything else meanwhile)
    pub broadcast axiom fn ax_looking(w: VxWorld, p: Seq<char>) ensures same_files(w, #[trigger] done(w, Op::ReadDir(p)));
    /// a text is one
    pub broadcast axiom fn ax_string(s: String) ensures unicode(#[trigger] s@);
    }
}
pub open spec fn same_files(a: VxWorld, b: VxWorld) -> bool {
    forall|p: Seq<char>| #![trigger listing(b, p)] #![trigger isdir(b, p)] #![trigger succeeds(b, Op::ReadDir(p))]
        listing(b, p) == listing(a, p) && isdir(b, p) == isdir(a, p) && succeeds(b, Op::ReadDir(p)) == succeeds(a, Op::ReadDir(p))
}
impl<T> VxFlat<T> for Vec<Result<T, IoError>> {
    #[verifier::external_body]
    fn flatten(self) -> (r: Vec<T>) ensures r@ == oks(self@) { unimplemented!() }
}
/// those that are there
pub open spec fn oks<T>(s: Seq<Result<T, IoError>>) -> Seq<T>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { match s.last() { Ok(x) => oks(s.drop_last()).push(x), Err(_) => oks(s.drop_last()) } } }
pub trait VxFlat<T>: Sized { fn flatten(self) -> Vec<T>; }
#[verifier::external_body]
#[derive(Debug)]
pub struct PatternError { p: u8 }
pub mod dunce { use super::*; verus! {
    #[verifier::external_body]
    pub fn canonicalize<P: VxStr + ?Sized>(p: &P, vx_w: &mut VxWorld) -> (r: Result<PathBuf, IoError>)
        ensures match r { Ok(c) => canonical(*old(vx_w), p.txt()) == Some(c@), Err(_) => canonical(*old(vx_w), p.txt()) is None }, *final(vx_w) == *old(vx_w),
    { unimplemented!() }
} }
pub open spec fn found(r: Seq<Result<PathBuf, IoError>>, l: Seq<Option<Seq<char>>>) -> bool {
    r.len() == l.len() && forall|i: int| 0 <= i < r.len() ==> match #[trigger] r[i] { Ok(e) => l[i] == Some(e@), Err(_) => l[i] is None }
}
pub mod glob { use super::*; verus! {
    #[verifier::external_body]
    pub fn glob<P: VxStr + ?Sized>(p: &P, vx_w: &mut VxWorld) -> (r: Result<Vec<Result<PathBuf, IoError>>, PatternError>)
        ensures match r { Ok(l) => globbed(*old(vx_w), p.txt()) is Some && found(l@, globbed(*old(vx_w), p.txt())->Some_0), Err(_) => globbed(*old(vx_w), p.txt()) is None }, *final(vx_w) == *old(vx_w),
    { unimplemented!() }
} }
impl OsString {
    #[verifier::external_body]
    pub fn into_string(self) -> (r: Result<String, OsString>) ensures match r { Ok(s) => unicode(self@) && s@ == self@, Err(o) => !unicode(self@) && o@ == self@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == lossy(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_str(&self) -> (r: Option<&str>) ensures r is Some == unicode(self@), r is Some ==> r->0@ == self@ && bl(self@) <= isize::MAX { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == lossy(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_str(&self) -> (r: Option<&str>) ensures r is Some == unicode(self@), r is Some ==> r->0@ == self@ && bl(self@) <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn into_os_string(self) -> (r: OsString) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &OsString) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>) ensures match r { Some(q) => above(self@) == Some(q@), None => above(self@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix<S: VxStr + ?Sized>(&self, d: &S) -> (r: Result<&Path, IoError>) ensures match r { Ok(q) => stripped(self@, d.txt()) == Some(q@), Err(_) => stripped(self@, d.txt()) is None } { unimplemented!() }
}
// ---------------------------------------------------------------- texts
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub trait VxText { fn vx_lines(&self) -> VxIt<&str>; fn vx_push_str<S: VxStr + ?Sized>(&mut self, s: &S); }
impl VxText for String {
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: VxIt<&str>) ensures texts(r@) == lines_of(self@), r@.len() <= bl(self@) <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    fn vx_push_str<S: VxStr + ?Sized>(&mut self, s: &S) ensures final(self)@ == old(self)@ + s.txt() { unimplemented!() }
}
impl VxPush<char> for String {
    #[verifier::external_body]
    fn vx_push(&mut self, x: char) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
}
impl VxInto<Expression> for Vec<String> {
    open spec fn conv(self) -> Expression { Expression::List(mkvec(strings(self@))) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Expression) { unimplemented!() }
}
pub fn vx_expr_from<T: VxInto<Expression>>(x: T) -> (r: Expression) ensures r == x.conv() { x.vx_into() }
impl<'a> VxInto<Expression> for &'a str {
    open spec fn conv(self) -> Expression { Expression::String(mkstr(self@)) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Expression) { unimplemented!() }
}
impl VxInto<Expression> for BTreeMap<String, Expression> {
    open spec fn conv(self) -> Expression { Expression::Map(self) }
    fn vx_into(self) -> (r: Expression) { Expression::Map(self) }
}
impl<T, E> VxOpt<T> for Result<T, E> {
    open spec fn opt(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self { Ok(x) => x, Err(_) => d }) { match self { Ok(x) => x, Err(_) => d } }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(::std::string::FromUtf8Error);
pub uninterp spec fn misspelled(e: ::std::string::FromUtf8Error) -> Seq<u8>;
pub assume_specification [String::from_utf8] (b: Vec<u8>) -> (r: Result<String, ::std::string::FromUtf8Error>)
    ensures match r { Ok(s) => spelled(b@) == Some(s@), Err(e) => spelled(b@) is None && misspelled(e) == b@ };
pub assume_specification [::std::string::FromUtf8Error::into_bytes] (e: ::std::string::FromUtf8Error) -> (r: Vec<u8>) ensures r@ == misspelled(e);
pub trait VxFirst<T> { fn vx_first(&self) -> Option<&T>; }
impl<T> VxFirst<T> for [T] {
    #[verifier::external_body]
    fn vx_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { unimplemented!() }
}
impl<T> VxFirst<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { unimplemented!() }
}
pub open spec fn strings(l: Seq<String>) -> Seq<Expression> { Seq::new(l.len(), |i: int| Expression::String(l[i])) }
} // verus!
pub mod u {
use super::*;
verus! {
broadcast use {axw::ax_log, axw::ax_present, axl::ax_mkvec, axl::ax_vec_back, axr::ax_lossy, axr::ax_joined, axr::ax_string, axo::ax_texts_len, axo::ax_list_len, axr::ax_above, axr::ax_looking, axm::ax_mkstr};
type R = Result<Expression, Error>;
pub type Sw = (Environment, VxWorld);
/// the text of the value of one argument, and what follows
pub open spec fn text1(x: Expression, s: Sw) -> (Result<Seq<char>, Error>, Sw) {
    let (r, e, w) = evals(x, s.0, s.1);
    (match r { Ok(v) => Ok(display(v)), Err(x) => Err(x) }, (e, w))
}
/// a builtin that looks at one path: in the world that evaluating the path left, from the directory that was
/// current before or after (they differ only when the operand itself changes it)
pub open spec fn of_path(a: Seq<Expression>, s: Sw, r: R, t: Sw, f: spec_fn(VxWorld, Seq<char>, R) -> bool) -> bool {
    if a.len() != 1 { r is Err && t == s }
    else { match text1(a[0], s) {
        (Err(x), u) => r == R::Err(x) && t == u,
        (Ok(p), u) => t == u && (f(u.1, joined(cwd(s.0), p), r) || f(u.1, joined(cwd(u.0), p), r)),
    } }
}
/// a builtin that looks at a path and takes a number
pub open spec fn of_count(a: Seq<Expression>, s: Sw, r: R, t: Sw, f: spec_fn(VxWorld, Seq<char>, int, R) -> bool) -> bool {
    if a.len() != 2 { r is Err && t == s }
    else { match text1(a[0], s) {
        (Err(x), u) => r == R::Err(x) && t == u,
        (Ok(p), u) => match evals(a[1], u.0, u.1) {
            (Err(x), e, w) => r == R::Err(x) && t == (e, w),
            (Ok(Expression::Integer(n)), e, w) => t == (e, w) && (f(w, joined(cwd(s.0), p), n as int, r) || f(w, joined(cwd(u.0), p), n as int, r) || f(w, joined(cwd(e), p), n as int, r)),
            (Ok(_), e, w) => r is Err && t == (e, w),
        },
    } }
}
pub open spec fn is_text(r: R, s: Seq<char>) -> bool { r is Ok && r->Ok_0 is String && r->Ok_0->String_0@ == s }
pub open spec fn is_bool(r: R, b: bool) -> bool { r == R::Ok(Expression::Boolean(b)) }
/// a list of texts
pub open spec fn is_texts(r: R, l: Seq<Seq<char>>) -> bool {
    r is Ok && r->Ok_0 is List && r->Ok_0->List_0@.len() == l.len()
        && forall|i: int| 0 <= i < l.len() ==> (#[trigger] r->Ok_0->List_0@[i]) is String && r->Ok_0->List_0@[i]->String_0@ == l[i]
}
/// the first k lines, each with the end of a line
pub open spec fn block(l: Seq<Seq<char>>, k: int) -> Seq<char>
    decreases k,
{ if k <= 0 { Seq::empty() } else { block(l, k - 1) + l[k - 1] + seq!['\n'] } }
pub open spec fn at_most(n: int, k: int) -> int { if n <= 0 { 0 } else if n < k { n } else { k } }
pub open spec fn times(n: int) -> int { if n > 0 { n } else { 0 } }
pub open spec fn is_head(w: VxWorld, p: Seq<char>, n: int, r: R) -> bool {
    match words(w, p) { None => r is Err, Some(t) => { let l = lines_of(t); is_text(r, block(l, at_most(n, l.len() as int))) } }
}
pub open spec fn is_tail(w: VxWorld, p: Seq<char>, n: int, r: R) -> bool {
    match words(w, p) { None => r is Err, Some(t) => { let l = lines_of(t); let k = at_most(n, l.len() as int); is_text(r, block(l.skip(l.len() - k), k)) } }
}
/// the names in a directory, as paths that begin with `short`
pub open spec fn one_entry(short: Seq<char>, n: Seq<char>) -> Seq<char> { if unicode(n) { lossy(joined(short, n)) } else { lossy(n) } }
pub open spec fn all_entries(short: Seq<char>, l: Seq<Option<Seq<char>>>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| one_entry(short, l[i]->Some_0)) }
pub open spec fn readable(l: Seq<Option<Seq<char>>>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is Some }
pub open spec fn lists_as(w: VxWorld, dir: Seq<char>, short: Seq<char>, r: R, t: VxWorld) -> bool {
    if isdir(w, dir) {
        t == done(w, Op::ReadDir(dir))
        && if succeeds(w, Op::ReadDir(dir)) && readable(listing(w, dir)) { is_texts(r, all_entries(short, listing(w, dir))) } else { r is Err }
    } else { t == w && if isfile(w, dir) { is_texts(r, seq![lossy(dir)]) } else { r is Err } }
}
pub open spec fn lists_path(a: Seq<Expression>, s: Sw, r: R, t: Sw) -> bool {
    if a.len() != 1 { r is Err && t == s }
    else { match text1(a[0], s) {
        (Err(x), u) => r == R::Err(x) && t == u,
        (Ok(p), u) => t.0 == u.0 && (lists_as(u.1, joined(cwd(s.0), p), p, r, t.1) || lists_as(u.1, joined(cwd(u.0), p), p, r, t.1)),
    } }
}
pub open spec fn is_content(w: VxWorld, p: Seq<char>, r: R) -> bool {
    match content(w, p) {
        None => r is Err,
        Some(b) => match spelled(b) { Some(t) => is_text(r, t), None => r is Ok && r->Ok_0 is Bytes && r->Ok_0->Bytes_0@ == b },
    }
}
pub open spec fn is_canon(w: VxWorld, p: Seq<char>, r: R) -> bool {
    match canonical(w, p) { Some(c) if unicode(c) => is_text(r, c), _ => r is Err }
}
pub open spec fn match_of(p: Seq<char>, dir: Seq<char>) -> Seq<char> { match stripped(p, dir) { Some(q) => lossy(q), None => lossy(p) } }
pub open spec fn matches_of(l: Seq<Option<Seq<char>>>, dir: Seq<char>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| match_of(l[i]->Some_0, dir)) }
pub open spec fn globs(a: Seq<Expression>, s: Sw, r: R, t: Sw) -> bool {
    if a.len() != 1 { r is Err && t == s }
    else { match text1(a[0], s) {
        (Err(x), u) => r == R::Err(x) && t == u,
        (Ok(p), u) => t == u && match globbed(u.1, p) { Some(l) if readable(l) => is_texts(r, matches_of(l, cwd(s.0))) || is_texts(r, matches_of(l, cwd(u.0))), _ => r is Err },
    } }
}
// ---------------------------------------------------------------- trees
/// a directory and what is below it, down to `d` levels: its own path, that of the directory above, and what is in it;
/// names that are no texts are left out, and so is what cannot be read. `k` bounds the depth: links may go round in circles
pub open spec fn is_tree(w: VxWorld, p: Seq<char>, d: Option<int>, m: Map<Seq<char>, Expression>, k: nat) -> bool
    decreases k, 0int,
{
    k > 0 && tree_dom(w, p, d, m)
        && forall|n: Seq<char>| named(w, p, d, n) ==> is_node(w, joined(p, n), less(d), #[trigger] m[n], (k - 1) as nat)
}
pub open spec fn is_node(w: VxWorld, p: Seq<char>, d: Option<int>, v: Expression, k: nat) -> bool
    decreases k, 1int,
{ if isdir(w, p) { v is Map && is_tree(w, p, d, v->Map_0@, k) } else { v is String && v->String_0@ == p } }
pub open spec fn less(d: Option<int>) -> Option<int> { match d { Some(n) => Some(n - 1), None => None } }
/// there is something of this name to show
pub open spec fn named(w: VxWorld, p: Seq<char>, d: Option<int>, n: Seq<char>) -> bool {
    (d is Some ==> d->Some_0 > 0) && succeeds(w, Op::ReadDir(p)) && unicode(n) && listing(w, p).contains(Some(n))
}
pub open spec fn tree_dom(w: VxWorld, p: Seq<char>, d: Option<int>, m: Map<Seq<char>, Expression>) -> bool {
    &&& forall|n: Seq<char>| #[trigger] m.dom().contains(n) <==> (n == "."@ || n == ".."@ || named(w, p, d, n))
    &&& !named(w, p, d, "."@) ==> m["."@] is String && m["."@]->String_0@ == p
    &&& !named(w, p, d, ".."@) ==> m[".."@] is String && m[".."@]->String_0@ == (match above(p) { Some(q) => q, None => p })
}
pub open spec fn treed(w: VxWorld, p: Seq<char>, d: Option<int>, m: Map<Seq<char>, Expression>) -> bool { exists|k: nat| is_tree(w, p, d, m, k) }
/// nothing but directories were read
pub open spec fn looked(a: VxWorld, b: VxWorld) -> bool {
    log(a).len() <= log(b).len() && (forall|i: int| 0 <= i < log(a).len() ==> #[trigger] log(b)[i] == log(a)[i])
        && forall|i: int| log(a).len() <= i < log(b).len() ==> (#[trigger] log(b)[i]).op is ReadDir
}
pub open spec fn arg(a: Seq<Expression>, i: int) -> Expression { if i < a.len() { a[i] } else { Expression::None } }
/// a path given as a text or a symbol; anything else means the current directory
pub open spec fn place(dir: Seq<char>, v: Expression) -> Seq<char> { match v { Expression::String(p) => joined(dir, p@), Expression::Symbol(p) => joined(dir, p@), _ => dir } }
pub open spec fn shows_tree(w: VxWorld, p: Seq<char>, d: Option<int>, r: R, t: VxWorld) -> bool {
    looked(w, t) && r is Ok && r->Ok_0 is Map && treed(w, p, d, r->Ok_0->Map_0@)
}
pub open spec fn trees(a: Seq<Expression>, s: Sw, r: R, t: Sw) -> bool {
    if a.len() != 1 && a.len() != 2 { r is Err && t == s }
    else { match evals(a[0], s.0, s.1) {
        (Err(x), e, w) => r == R::Err(x) && t == (e, w),
        (Ok(Expression::Integer(n)), e, w) => match evals(arg(a, 1), e, w) {
            (Err(x), f, z) => r == R::Err(x) && t == (f, z),
            (Ok(v), f, z) => t.0 == f && (shows_tree(z, place(cwd(s.0), v), Some(n as int), r, t.1) || shows_tree(z, place(cwd(e), v), Some(n as int), r, t.1) || shows_tree(z, place(cwd(f), v), Some(n as int), r, t.1)),
        },
        (Ok(v), e, w) => t.0 == e && (shows_tree(w, place(cwd(s.0), v), None, r, t.1) || shows_tree(w, place(cwd(e), v), None, r, t.1)),
    } }
}
// the walk, step by step
pub open spec fn noded(w: VxWorld, p: Seq<char>, d: Option<int>, v: Expression) -> bool { exists|k: nat| is_node(w, p, d, v, k) }
pub open spec fn names(s: Seq<DirEntry>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].name()) }
pub open spec fn seen(ns: Seq<Seq<char>>, k: int, n: Seq<char>) -> bool { exists|j: int| 0 <= j < k && #[trigger] ns[j] == n }
/// the first k names are there
pub open spec fn half(w: VxWorld, p: Seq<char>, d: Option<int>, m: Map<Seq<char>, Expression>, ns: Seq<Seq<char>>, k: int) -> bool {
    &&& forall|n: Seq<char>| #[trigger] m.dom().contains(n) <==> (n == "."@ || n == ".."@ || (unicode(n) && seen(ns, k, n)))
    &&& forall|j: int| 0 <= j < k ==> unicode(#[trigger] ns[j]) ==> noded(w, joined(p, ns[j]), less(d), m[ns[j]])
    &&& !(unicode("."@) && seen(ns, k, "."@)) ==> m["."@] is String && m["."@]->String_0@ == p
    &&& !(unicode(".."@) && seen(ns, k, ".."@)) ==> m[".."@] is String && m[".."@]->String_0@ == (match above(p) { Some(q) => q, None => p })
}
/// the directory itself and the one above
pub open spec fn bare(p: Seq<char>, m: Map<Seq<char>, Expression>) -> bool {
    &&& forall|n: Seq<char>| #[trigger] m.dom().contains(n) <==> (n == "."@ || n == ".."@)
    &&& m["."@] is String && m["."@]->String_0@ == p
    &&& m[".."@] is String && m[".."@]->String_0@ == (match above(p) { Some(q) => q, None => p })
}
pub open spec fn nameless(w: VxWorld, p: Seq<char>, d: Option<int>) -> bool { (d is Some && d->Some_0 <= 0) || !succeeds(w, Op::ReadDir(p)) }
pub proof fn lemma_bare(w: VxWorld, p: Seq<char>, d: Option<int>)
    ensures forall|m: Map<Seq<char>, Expression>, ns: Seq<Seq<char>>| bare(p, m) ==> #[trigger] half(w, p, d, m, ns, 0),
        forall|m: Map<Seq<char>, Expression>| bare(p, m) && nameless(w, p, d) ==> #[trigger] treed(w, p, d, m),
{
    assert forall|m: Map<Seq<char>, Expression>| bare(p, m) && nameless(w, p, d) implies #[trigger] treed(w, p, d, m) by { lemma_tree(w, p, d, m, Seq::empty()); }
}
pub proof fn lemma_treed(a: VxWorld, b: VxWorld, p: Seq<char>, d: Option<int>, m: Map<Seq<char>, Expression>)
    requires same_files(a, b), treed(b, p, d, m),
    ensures treed(a, p, d, m),
{
    let k = choose|k: nat| is_tree(b, p, d, m, k);
    lemma_same(a, b, p, d, m, k);
    assert(is_tree(a, p, d, m, k));
}
/// the walk goes on in a world that looks the same, and only looks at it
pub proof fn lemma_walk(a: VxWorld, b: VxWorld, c: VxWorld)
    ensures looked(a, a), looked(a, b) && looked(b, c) ==> looked(a, c), same_files(a, a), same_files(a, b) && same_files(b, c) ==> same_files(a, c),
        forall|p: Seq<char>| looked(a, #[trigger] done(a, Op::ReadDir(p))),
{ }
/// what was found in a directory below
pub proof fn lemma_node(a: VxWorld, b: VxWorld, p: Seq<char>, d: Option<int>, v: Expression)
    requires same_files(a, b), if isdir(b, p) { v is Map && treed(b, p, d, v->Map_0@) } else { v is String && v->String_0@ == p },
    ensures noded(a, p, d, v),
{
    assert(isdir(b, p) == isdir(a, p));
    if isdir(b, p) { lemma_treed(a, b, p, d, v->Map_0@); let k = choose|k: nat| is_tree(a, p, d, v->Map_0@, k); assert(is_node(a, p, d, v, k)); }
    else { assert(is_node(a, p, d, v, 0)); }
}
pub proof fn lemma_more(w: VxWorld, p: Seq<char>, d: Option<int>, v: Expression, k: nat, f: nat)
    requires is_node(w, p, d, v, k), k <= f,
    ensures is_node(w, p, d, v, f),
    decreases k,
{
    if isdir(w, p) {
        let m = v->Map_0@;
        assert forall|n: Seq<char>| named(w, p, d, n) implies is_node(w, joined(p, n), less(d), #[trigger] m[n], (f - 1) as nat) by {
            lemma_more(w, joined(p, n), less(d), m[n], (k - 1) as nat, (f - 1) as nat);
        }
    }
}
pub proof fn lemma_fuel(w: VxWorld, p: Seq<char>, d: Option<int>, m: Map<Seq<char>, Expression>, ns: Seq<Seq<char>>, k: int) -> (f: nat)
    requires half(w, p, d, m, ns, ns.len() as int), 0 <= k <= ns.len(),
    ensures forall|j: int| 0 <= j < k ==> unicode(#[trigger] ns[j]) ==> is_node(w, joined(p, ns[j]), less(d), m[ns[j]], f),
    decreases k,
{
    if k == 0 { 0 } else {
        let g = lemma_fuel(w, p, d, m, ns, k - 1);
        if unicode(ns[k - 1]) {
            let q = joined(p, ns[k - 1]); let v = m[ns[k - 1]];
            let h = choose|h: nat| is_node(w, q, less(d), v, h);
            let f = if g > h { g } else { h };
            lemma_more(w, joined(p, ns[k - 1]), less(d), m[ns[k - 1]], h, f);
            assert forall|j: int| 0 <= j < k && unicode(#[trigger] ns[j]) implies is_node(w, joined(p, ns[j]), less(d), m[ns[j]], f) by {
                if j < k - 1 { lemma_more(w, joined(p, ns[j]), less(d), m[ns[j]], g, f); }
            }
            f
        } else { g }
    }
}
pub proof fn lemma_tree(w: VxWorld, p: Seq<char>, d: Option<int>, m: Map<Seq<char>, Expression>, ns: Seq<Seq<char>>)
    requires half(w, p, d, m, ns, ns.len() as int), forall|n: Seq<char>| named(w, p, d, n) <==> unicode(n) && #[trigger] seen(ns, ns.len() as int, n),
    ensures treed(w, p, d, m),
{
    let f = lemma_fuel(w, p, d, m, ns, ns.len() as int);
    assert forall|n: Seq<char>| named(w, p, d, n) implies is_node(w, joined(p, n), less(d), #[trigger] m[n], f) by {
        assert(seen(ns, ns.len() as int, n));
    }
    assert forall|n: Seq<char>| #[trigger] m.dom().contains(n) <==> (n == "."@ || n == ".."@ || named(w, p, d, n)) by { assert(named(w, p, d, n) <==> unicode(n) && seen(ns, ns.len() as int, n)); }
    assert(named(w, p, d, "."@) <==> unicode("."@) && seen(ns, ns.len() as int, "."@));
    assert(named(w, p, d, ".."@) <==> unicode(".."@) && seen(ns, ns.len() as int, ".."@));
    assert(is_tree(w, p, d, m, f + 1));
}
pub proof fn lemma_step(w: VxWorld, p: Seq<char>, d: Option<int>, a: Map<Seq<char>, Expression>, b: Map<Seq<char>, Expression>, ns: Seq<Seq<char>>, k: int)
    requires half(w, p, d, a, ns, k), 0 <= k < ns.len(),
        if unicode(ns[k]) { b == a.insert(ns[k], b[ns[k]]) && noded(w, joined(p, ns[k]), less(d), b[ns[k]]) } else { b == a },
    ensures half(w, p, d, b, ns, k + 1),
{
    assert forall|n: Seq<char>| #[trigger] seen(ns, k + 1, n) <==> seen(ns, k, n) || n == ns[k] by {
        if seen(ns, k, n) { let j = choose|j: int| 0 <= j < k && #[trigger] ns[j] == n; assert(ns[j] == n && j < k + 1); }
    }
    assert forall|j: int| 0 <= j < k + 1 && unicode(#[trigger] ns[j]) implies noded(w, joined(p, ns[j]), less(d), b[ns[j]]) by { }
}
pub proof fn lemma_same(a: VxWorld, b: VxWorld, p: Seq<char>, d: Option<int>, m: Map<Seq<char>, Expression>, k: nat)
    requires same_files(a, b), is_tree(b, p, d, m, k),
    ensures is_tree(a, p, d, m, k),
    decreases k,
{
    assert(listing(b, p) == listing(a, p)); assert(succeeds(b, Op::ReadDir(p)) == succeeds(a, Op::ReadDir(p)));
    assert forall|n: Seq<char>| named(a, p, d, n) implies is_node(a, joined(p, n), less(d), #[trigger] m[n], (k - 1) as nat) by {
        assert(named(b, p, d, n)); assert(isdir(b, joined(p, n)) == isdir(a, joined(p, n)));
        assert(is_node(b, joined(p, n), less(d), m[n], (k - 1) as nat));
        if isdir(a, joined(p, n)) { lemma_same(a, b, joined(p, n), less(d), m[n]->Map_0@, (k - 1) as nat); }
    }
    assert forall|n: Seq<char>| named(a, p, d, n) == named(b, p, d, n) by {}
}
pub proof fn lemma_oks(s: Seq<Result<DirEntry, IoError>>, l: Seq<Option<Seq<char>>>, dir: Seq<char>)
    requires lists(s, l, dir),
    ensures forall|i: int| 0 <= i < oks(s).len() ==> (#[trigger] oks(s)[i]).dir() == dir,
        forall|n: Seq<char>| l.contains(Some(n)) <==> #[trigger] seen(names(oks(s)), oks(s).len() as int, n),
    decreases s.len(),
{
    let o = oks(s); let ns = names(o);
    if s.len() == 0 {
    } else {
        let t = s.drop_last(); let k = l.drop_last();
        assert(lists(t, k, dir)) by { assert forall|i: int| 0 <= i < t.len() implies match #[trigger] t[i] { Ok(e) => e.dir() == dir && k[i] == Some(e.name()), Err(_) => k[i] is None } by { assert(t[i] == s[i]); } }
        lemma_oks(t, k, dir);
        let ot = oks(t); let nt = names(ot);
        assert(s.last() == s[s.len() - 1]);
        assert forall|n: Seq<char>| l.contains(Some(n)) <==> #[trigger] seen(ns, o.len() as int, n) by {
            assert(k.contains(Some(n)) <==> seen(nt, ot.len() as int, n));
            if l.contains(Some(n)) {
                let i = choose|i: int| 0 <= i < l.len() && l[i] == Some(n);
                if i < k.len() {
                    assert(k[i] == Some(n));
                    let j = choose|j: int| 0 <= j < ot.len() && #[trigger] nt[j] == n;
                    assert(o[j] == ot[j]); assert(ns[j] == n);
                } else { assert(ns[o.len() - 1] == n); }
            }
            if seen(ns, o.len() as int, n) {
                let j = choose|j: int| 0 <= j < o.len() && #[trigger] ns[j] == n;
                if j < ot.len() {
                    assert(o[j] == ot[j]); assert(nt[j] == n); assert(seen(nt, ot.len() as int, n));
                    let i = choose|i: int| 0 <= i < k.len() && k[i] == Some(n); assert(l[i] == Some(n));
                } else { assert(l[l.len() - 1] == Some(n)); }
            }
        }
    }
}
pub open spec fn opt_int(d: Option<i64>) -> Option<int> { match d { Some(n) => Some(n as int), None => None } }
pub open spec fn all_text(v: Seq<String>, l: Seq<Seq<char>>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] v[i])@ == l[i] }
} // verus!
verus! {
//@ end
//@ file src/env.rs
//@ assume Environment::get_cwd
    ensures r@ == cwd(*self),
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ file src/binary/init/fs_module.rs
//@ fn closure/head name=fs_head loops=1
    ensures of_count($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w)), |w, p, n, q| is_head(w, p, n, q)),
//@ before_loop 0
    let ghost gs = lines@; let ghost gl = texts(gs); let ghost gn = times(n as int);
    proof { assert(gs.skip(0) =~= gs); }
//@ loop 0
    invariant vx_it1@.len() <= gn, gn - vx_it1@.len() <= gs.len(), lines@ == gs.skip(gn - vx_it1@.len()), result@ == block(gl, gn - vx_it1@.len()),
    ensures result@ == block(gl, at_most(n as int, gl.len() as int)),
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { let gk = gn - vx_it1@.len(); if gk < gs.len() { assert(gs.skip(gk)[0] == gs[gk]); assert(gl[gk] == gs[gk]@); assert(gs.skip(gk).skip(1) =~= gs.skip(gk + 1));
        assert(block(gl, gk + 1) =~= (block(gl, gk) + gl[gk]).push('\n')); } }
//@ fn closure/tail name=fs_tail loops=2
    ensures of_count($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w)), |w, p, n, q| is_tail(w, p, n, q)),
//@ after_let lines 0
    let ghost gs = lines@; let ghost gl = texts(gs.reverse()); let ghost gn = times(n as int);
    proof { assert(gs.skip(0) =~= gs); assert(gs.reverse().reverse() =~= gs); assert(gl =~= lines_of(contents@)); assert(gs.take(0) =~= Seq::empty()); }
//@ loop 0
    invariant vx_it1@.len() <= gn, gn - vx_it1@.len() <= gs.len(), lines@ == gs.skip(gn - vx_it1@.len()), last@ == gs.take(gn - vx_it1@.len()),
    ensures last@ == gs.take(at_most(n as int, gl.len() as int)),
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { let gk = gn - vx_it1@.len(); if gk < gs.len() { assert(gs.skip(gk)[0] == gs[gk]); assert(gs.skip(gk).skip(1) =~= gs.skip(gk + 1)); assert(gs.take(gk + 1) =~= gs.take(gk).push(gs[gk])); } }
//@ before_loop 1
    let ghost gk = at_most(n as int, gl.len() as int); let ghost gr = gs.take(gk).reverse(); let ghost gt = gl.skip(gl.len() - gk);
    proof { assert(texts(gr) =~= gt); assert(gr.skip(0) =~= gr); }
//@ loop 1
    invariant vx_it2@.len() <= gk, gk == gr.len(), vx_it2@ == gr.skip(gk - vx_it2@.len()), result@ == block(gt, gk - vx_it2@.len()),
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ loop_start 1
    proof { let gj = gk - vx_it2@.len(); if gj < gk { assert(gr.skip(gj)[0] == gr[gj]); assert(gt[gj] == gr[gj]@); assert(gr.skip(gj).skip(1) =~= gr.skip(gj + 1));
        assert(block(gt, gj + 1) =~= (block(gt, gj) + gt[gj]).push('\n')); } }
//@ fn closure/canon name=fs_canon
    ensures of_path($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w)), |w, p, q| is_canon(w, p, q)),
//@ fn closure/ls name=fs_ls
    ensures lists_path($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w))),
//@ fn closure/exists? name=fs_exists
    ensures of_path($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w)), |w, p, q| is_bool(q, leads(w, p))),
//@ fn closure/is-dir? name=fs_isdir
    ensures of_path($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w)), |w, p, q| is_bool(q, isdir(w, p))),
//@ fn closure/is-file? name=fs_isfile
    ensures of_path($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w)), |w, p, q| is_bool(q, isfile(w, p))),
//@ fn closure/read name=fs_read
    ensures of_path($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w)), |w, p, q| is_content(w, p, q)),
//@ fn closure/glob name=fs_glob loops=1
    ensures globs($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w))),
//@ before_loop 0
    let ghost gl = globbed(*vx_w, pattern@)->Some_0; let ghost gv = matches_of(gl, cwd@);
    proof { assert(gl.skip(0) =~= gl); }
//@ loop 0
    invariant vx_it1@.len() <= gl.len(), found(vx_it1@, gl.skip(gl.len() - vx_it1@.len())), all_text(result@, gv, gl.len() - vx_it1@.len()), readable(gl.take(gl.len() - vx_it1@.len())),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { let gk = gl.len() - vx_it1@.len(); if gk < gl.len() { assert(gl.skip(gk)[0] == gl[gk]); assert(gl.skip(gk).skip(1) =~= gl.skip(gk + 1)); assert(gl.take(gk + 1) =~= gl.take(gk).push(gl[gk])); } }
//@ after_loop 0
    proof { assert(gl.take(gl.len() as int) =~= gl); }
//@ fn get_dir_tree loops=1
//@ attrs
    #[verifier::exec_allows_no_decreases_clause]
//@ contract
    requires unicode($0@),
    ensures treed(*old(vx_w), $0@, opt_int($1), r@), same_files(*old(vx_w), *final(vx_w)), looked(*old(vx_w), *final(vx_w)),
//@ entry
    hide(half); hide(treed); hide(looked); hide(noded);
    let ghost gw = *vx_w; let ghost gd = opt_int($1);
    proof { lemma_bare(gw, $0@, gd); lemma_walk(gw, gw, gw); reveal_strlit("."); reveal_strlit(".."); assert("."@.len() == 1); assert(".."@.len() == 2); }
//@ before_loop 0
    let ghost gl = listing(gw, $0@); let ghost ge = oks(entries@); let ghost gns = names(ge);
    proof { lemma_oks(entries@, gl, $0@); assert(ge.skip(0) =~= ge); lemma_walk(gw, gw, *vx_w); assert(bare($0@, dir_tree@)); }
//@ loop 0
    invariant vx_it1@.len() <= ge.len(), vx_it1@ == ge.skip(ge.len() - vx_it1@.len()), half(gw, $0@, gd, dir_tree@, gns, ge.len() - vx_it1@.len()),
        same_files(gw, *vx_w), looked(gw, *vx_w),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    let ghost gk = ge.len() - vx_it1@.len(); let ghost gm = dir_tree@; let ghost gv = *vx_w;
    proof { if gk < ge.len() && !unicode(gns[gk]) { lemma_step(gw, $0@, gd, gm, gm, gns, gk); }
        if gk < ge.len() { assert(ge.skip(gk)[0] == ge[gk]); assert(ge.skip(gk).skip(1) =~= ge.skip(gk + 1)); } }
//@ loop_end 0
    proof {
        lemma_walk(gw, gv, *vx_w);
        if unicode(gns[gk]) { lemma_node(gw, gv, joined($0@, gns[gk]), less(gd), dir_tree@[gns[gk]]); assert(dir_tree@ =~= gm.insert(gns[gk], dir_tree@[gns[gk]])); }
        lemma_step(gw, $0@, gd, gm, dir_tree@, gns, gk);
    }
//@ after_loop 0
    proof { assert forall|n: Seq<char>| named(gw, $0@, gd, n) <==> unicode(n) && #[trigger] seen(gns, gns.len() as int, n) by {} lemma_tree(gw, $0@, gd, dir_tree@, gns); }
//@ fn closure/tree name=fs_tree
    ensures trees($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w))),
//@ fn list_directory loops=1
    ensures lists_as(*old(vx_w), $0@, $1@, r, *final(vx_w)),
//@ before_loop 0
    let ghost gl = listing(*old(vx_w), $0@); let ghost gv = all_entries($1@, gl);
    proof { assert(gl.skip(0) =~= gl); }
//@ loop 0
    invariant vx_it1@.len() <= gl.len(), lists(vx_it1@, gl.skip(gl.len() - vx_it1@.len()), $0@), all_text(result@, gv, gl.len() - vx_it1@.len()), readable(gl.take(gl.len() - vx_it1@.len())),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { let gk = gl.len() - vx_it1@.len(); if gk < gl.len() { assert(gl.skip(gk)[0] == gl[gk]); assert(gl.skip(gk).skip(1) =~= gl.skip(gk + 1)); assert(gl.take(gk + 1) =~= gl.take(gk).push(gl[gk])); } }
//@ after_loop 0
    proof { assert(gl.take(gl.len() as int) =~= gl); }
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
