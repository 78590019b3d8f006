//@ include lib.vspec
//@ include argc.vspec
//@ default vclone ctx exprfrom keep=to_str world=set_current_dir,cd
//@ raw
verus! {
// ---------------------------------------------------------------- paths and files
/// The file system as it is while one of these functions looks at it: which existing place a
/// path leads to, what a file holds as text, which places can be entered.
pub uninterp spec fn canon(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn contents(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn enterable(p: Seq<char>) -> bool;
/// whether the name of a place is a text at all
pub uninterp spec fn is_name(p: Seq<char>) -> bool;
/// the path that leads from `dir` to `p`: `p` itself when it is absolute
pub uninterp spec fn joined(dir: Seq<char>, p: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub struct Path { p: u8 }
pub type PathBuf = Path;
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxClone for Path {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
impl VxStr for Path { open spec fn txt(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub struct IoError { p: u8 }
#[verifier::external_body]
#[derive(Debug)]
pub struct OsString { p: u8 }
impl View for OsString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl OsString {
    #[verifier::external_body]
    pub fn into_string(self) -> (r: Result<String, OsString>) ensures r is Ok == is_name(self@), r is Ok ==> r->Ok_0@ == self@ { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn from<S: VxStr>(s: S) -> (r: Path) ensures r@ == s.txt() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_join<S: VxStr>(&self, s: S) -> (r: Path) ensures r@ == joined(self@, s.txt()) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some == is_name(self@), r is Some ==> r->0@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_os_string(self) -> (r: OsString) ensures r@ == self@ { unimplemented!() }
}
/// the process's own current directory
pub struct VxWorld { pub pwd: Seq<char> }
} // verus!
pub mod dunce { use super::*; verus! {
    #[verifier::external_body]
    pub fn canonicalize<P: VxStr + ?Sized>(p: &P) -> (r: Result<PathBuf, IoError>)
        ensures match r { Ok(c) => canon(p.txt()) == Some(c@), Err(_) => canon(p.txt()) is None },
    { unimplemented!() }
} }
pub mod std {
    pub mod fs { use super::super::*; verus! {
        #[verifier::external_body]
        pub fn read_to_string<P: VxStr>(p: P) -> (r: Result<String, IoError>)
            ensures match r { Ok(s) => contents(p.txt()) == Some(s@), Err(_) => contents(p.txt()) is None },
        { unimplemented!() }
    } }
    pub mod env { use super::super::*; verus! {
        #[verifier::external_body]
        pub fn set_current_dir<P: VxStr>(p: P, vx_w: &mut VxWorld) -> (r: Result<(), IoError>)
            ensures r is Ok == enterable(p.txt()), final(vx_w).pwd == if enterable(p.txt()) { p.txt() } else { old(vx_w).pwd },
        { unimplemented!() }
    } }
    pub mod process { use super::super::*; verus! {
        #[verifier::external_body]
        pub fn exit(code: i32) -> !
            requires ended(status(code as int)),
        { unimplemented!() }
    } }
}
verus! {
/// what a process that ends with this number leaves: the system keeps its lowest eight bits
pub open spec fn status(code: int) -> int { low_32(code) % 256 }
/// the process may end, and leave this
pub uninterp spec fn ended(status: int) -> bool;
/// From<Environment> for Expression (B01): the map of the scope's own names
impl VxInto<Expression> for Environment {
    open spec fn conv(self) -> Expression { Expression::Map(self.bindings) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Expression) { unimplemented!() }
}
impl VxInto<Expression> for BTreeMap<String, Expression> {
    open spec fn conv(self) -> Expression { Expression::Map(self) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Expression) { unimplemented!() }
}
pub fn vx_expr_from<T: VxInto<Expression>>(x: T) -> (r: Expression) ensures r == x.conv() { x.vx_into() }
}
pub mod axs {
    use super::*;
    verus! {
    /// a text evaluates to itself (E01)
    pub broadcast axiom fn ax_text(s: String, e: Environment) ensures #[trigger] evals(Expression::String(s), e) == (Result::<Expression, Error>::Ok(Expression::String(s)), e);
    }
}
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axe::ax_map_key_ext, axo::ax_list_len, axm::ax_str_back, axs::ax_text};
type R = Result<Expression, Error>;
/// the value a name has: the innermost scope that binds it
pub open spec fn lookup(e: Environment, k: Seq<char>) -> Option<Expression>
    decreases e,
{
    if e.bindings@.contains_key(k) { Some(e.bindings@[k]) } else {
        match e.parent { Some(p) => lookup(*p, k), None => None }
    }
}
pub open spec fn cwd(e: Environment) -> Seq<char> {
    match lookup(e, "CWD"@) { Some(Expression::String(p)) => p@, _ => "/"@ }
}
/// f is e with x bound to k, in the innermost scope
pub open spec fn bound(e: Environment, f: Environment, k: Seq<char>, x: Expression) -> bool {
    f.bindings@ == e.bindings@.insert(k, x) && f.parent == e.parent
}
/// f is e in the directory d
pub open spec fn moved(e: Environment, f: Environment, d: Seq<char>) -> bool {
    bound(e, f, "CWD"@, Expression::String(mkstr(d)))
}
/// the place an operand's value names, seen from a directory
pub open spec fn place(dir: Seq<char>, v: Expression) -> Option<Seq<char>> { canon(joined(dir, display(v))) }
pub open spec fn source(dir: Seq<char>, v: Expression) -> Option<Seq<char>> {
    match place(dir, v) { Some(p) => contents(p), None => None }
}
/// evaluating the file the operand names, in the scope; or in a copy of it
pub open spec fn included(r: R, f: Environment, e1: Environment, src: Option<Seq<char>>, copy: bool) -> bool {
    match (match src { Some(s) => Some(parsed(s)), None => None }) {
        Some(Ok(x)) => if copy { r == ev(x, e1) && f == e1 } else { (r, f) == evals(x, e1) },
        _ => r is Err && f == e1,
    }
}
/// one operand exactly, evaluated; then by its value, from the directory the scope was in
pub open spec fn of_one(r: R, a: Seq<Expression>, e: Environment, f: Environment, want: spec_fn(Expression, Environment, Seq<char>) -> bool) -> bool {
    if a.len() != 1 { r is Err && f == e } else { match evals(a[0], e) { (Err(x), e1) => r == R::Err(x) && f == e1, (Ok(v), e1) => want(v, e1, cwd(e)) || want(v, e1, cwd(e1)) } }
}
/// the number the process ends with
pub open spec fn ending(a: Seq<Expression>, e: Environment) -> Option<int> {
    if a.len() == 0 { Some(0) } else { match ev(a[0], e) { Ok(Expression::Integer(n)) => Some(n as int), _ => None } }
}
pub open spec fn path_text(v: Expression) -> Seq<char> { match v { Expression::Symbol(s) | Expression::String(s) => s@, _ => display(v) } }
//@ end
//@ file src/env.rs
//@ consts CWD_ENV_VAR
//@ fn Environment::get
    ensures r == lookup(*self, name@),
    decreases *self,
//@ fn Environment::is_defined
    ensures r == (lookup(*self, name@) is Some),
    decreases *self,
//@ fn Environment::define
    ensures final(self).bindings@ == old(self).bindings@.insert(name@, expr), final(self).parent == old(self).parent,
//@ fn Environment::undefine
    ensures final(self).bindings@ == old(self).bindings@.remove(name@), final(self).parent == old(self).parent,
//@ fn Environment::get_cwd
    ensures r@ == cwd(*self),
//@ fn Environment::set_cwd
    ensures moved(*old(self), *final(self), cwd.shown()),
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ fn check_args_len
    ensures r is Ok <==> expected_len.within(args@.len() as usize),
//@ file src/binary/init/sys_module.rs
//@ fn closure/parse name=c_parse
    ensures of_one(r, $0@, *old($1), *final($1), |v: Expression, e1: Environment, d: Seq<char>| *final($1) == e1 && r == R::Ok(match parsed(display(v)) { Ok(x) => x, Err(_) => Expression::None })),
//@ fn closure/quote name=c_quote
    ensures *final($1) == *old($1), if $0@.len() == 1 { r is Ok && r->Ok_0 is Quote && *(r->Ok_0->Quote_0) == $0@[0] } else { r is Err },
//@ fn closure/eval name=c_eval
    ensures $0@.len() == 0 ==> r is Err && *final($1) == *old($1),
        $0@.len() > 0 ==> *final($1) == af($0@[0], *old($1)) && match ev($0@[0], *old($1)) { Err(x) => r == R::Err(x), Ok(v) => r == ev(v, *old($1)) || r == ev(v, af($0@[0], *old($1))) },
//@ fn closure/exec name=c_exec
    ensures $0@.len() == 0 ==> r is Err && *final($1) == *old($1),
        $0@.len() > 0 ==> match evals($0@[0], *old($1)) { (Err(x), e1) => r == R::Err(x) && *final($1) == e1, (Ok(v), e1) => (r, *final($1)) == evals(v, e1) },
//@ fn closure/include name=c_include
    ensures of_one(r, $0@, *old($1), *final($1), |v: Expression, e1: Environment, d: Seq<char>| included(r, *final($1), e1, source(d, v), false)),
//@ fn closure/import name=c_import
    ensures of_one(r, $0@, *old($1), *final($1), |v: Expression, e1: Environment, d: Seq<char>| included(r, *final($1), e1, source(d, v), true)),
//@ fn closure/cd name=c_cd
    ensures of_one(r, $0@, *old($1), *final($1), |v: Expression, e1: Environment, d: Seq<char>| match place(d, v) {
        Some(p) if is_name(p) => r == R::Ok(Expression::None) && moved(e1, *final($1), p),
        _ => r is Err && *final($1) == e1,
    }),
//@ fn closure/cwd name=c_cwd
    ensures *final($1) == *old($1), r is Ok, r->Ok_0 is String, r->Ok_0->String_0@ == cwd(*old($1)),
//@ fn closure/env name=c_env
    ensures *final($1) == *old($1), r is Ok, r->Ok_0 is Map, r->Ok_0->Map_0 == old($1).bindings,
//@ fn closure/set name=c_set
    ensures if $0@.len() == 2 { r == R::Ok(Expression::None) && bound(*old($1), *final($1), display($0@[0]), $0@[1]) } else { r is Err && *final($1) == *old($1) },
//@ fn closure/unset name=c_unset
    ensures if $0@.len() == 1 { r == R::Ok(Expression::None) && final($1).bindings@ == old($1).bindings@.remove(display($0@[0])) && final($1).parent == old($1).parent } else { r is Err && *final($1) == *old($1) },
//@ fn closure/defined? name=c_defined
    ensures *final($1) == *old($1), if $0@.len() == 1 { r == R::Ok(Expression::Boolean(lookup(*old($1), display($0@[0])) is Some)) } else { r is Err },
//@ file src/binary/init/os_module.rs
//@ fn closure/exit name=c_exit
    requires (match ending($0@, *old($1)) { Some(n) => ended(status(n)), None => true }),
    ensures ending($0@, *old($1)) is None, $0@.len() > 0, *final($1) == af($0@[0], *old($1)), match ev($0@[0], *old($1)) { Err(x) => r == R::Err(x), Ok(v) => r is Err },
//@ fn cd
    ensures of_one(r, $0@, *old($1), *final($1), |v: Expression, e1: Environment, d: Seq<char>| match canon(joined(cwd(e1), path_text(v))) {
        Some(p) if enterable(p) && is_name(p) => r == R::Ok(Expression::None) && moved(e1, *final($1), p) && final(vx_w).pwd == p,
        _ => r is Err && *final($1) == e1 && final(vx_w).pwd == old(vx_w).pwd,
    }),
    decreases (if $0@.len() == 1 && $0@[0] is String { 0int } else { 1int }),
//@ entry
    proof { if $0@.len() == 1 { if let Expression::String(s) = $0@[0] { axs::ax_text(s, *old($1)); } } }
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
