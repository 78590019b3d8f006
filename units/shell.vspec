//@ include pre.vspec
//@ include expr.vspec
//@ include std.vspec
//@ include coll.vspec
//@ default vclone ctx exprfrom fmtshow fmtcat errout ren=is_whitespace,strip_prefix,starts_with,contains,trim_start_matches world=eval,lock,readline,set_prompt,add_history_entry,save_history,get_cwd,exit,parse,run_text,run_file,read_to_string,repl
//@ raw
verus! {
// ---------------------------------------------------------------- what lies outside the program
/// The terminal, the standard error, the history, files, and what the scopes hold: everything the functions below touch.
#[verifier::external_body]
pub struct VxWorld { p: u8 }
/// the world after this text was written to the standard error; after the prompt was set; after a text was put in the history
pub uninterp spec fn told(w: VxWorld, s: Seq<char>) -> VxWorld;
pub uninterp spec fn prompting(w: VxWorld, s: Seq<char>) -> VxWorld;
pub uninterp spec fn kept(w: VxWorld, s: Seq<char>) -> VxWorld;
pub uninterp spec fn saved(w: VxWorld, p: PathBuf) -> (bool, VxWorld);
/// what comes of asking for a line behind these characters, and the world then; whether the input has ended
pub uninterp spec fn entered(w: VxWorld, s: Seq<char>) -> (Result<String, ReadlineError>, VxWorld);
pub uninterp spec fn over(w: VxWorld) -> bool;
/// the text of a file
pub uninterp spec fn words(w: VxWorld, p: PathBuf) -> Option<Seq<char>>;
pub mod axw {
    use super::*;
    verus! {
    /// the last prompt set is the prompt; only the text written counts, not the pieces
    pub broadcast axiom fn ax_prompt(w: VxWorld, a: Seq<char>, b: Seq<char>) ensures #[trigger] prompting(prompting(w, a), b) == prompting(w, b);
    pub broadcast axiom fn ax_told(w: VxWorld, a: Seq<char>, b: Seq<char>) ensures #[trigger] told(told(w, a), b) == told(w, a + b);
    }
}
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_eprint(s: String, vx_w: &mut VxWorld) ensures *final(vx_w) == told(*old(vx_w), s@) { unimplemented!() }
// ---------------------------------------------------------------- evaluation
/// The one thing an environment is here: which scope it is.  What the scope holds is part of the world.
pub trait VxScope {
    spec fn scope(&self) -> int;
    fn get_cwd(&self, vx_w: &mut VxWorld) -> (r: String) ensures r@ == cwd(self.scope(), *old(vx_w)), *final(vx_w) == *old(vx_w);
}
impl VxScope for Environment {
    uninterp spec fn scope(&self) -> int;
    #[verifier::external_body]
    fn get_cwd(&self, vx_w: &mut VxWorld) -> (r: String) { unimplemented!() }
}
/// the environment behind the lock
#[verifier::external_body]
pub struct VxGuard { p: u8 }
impl VxScope for VxGuard {
    uninterp spec fn scope(&self) -> int;
    #[verifier::external_body]
    fn get_cwd(&self, vx_w: &mut VxWorld) -> (r: String) { unimplemented!() }
}
/// What evaluating an expression in a scope does: its result, and the world afterwards.
pub uninterp spec fn evals(x: Expression, e: int, w: VxWorld) -> (Result<Expression, Error>, VxWorld);
/// the scope's working directory
pub uninterp spec fn cwd(e: int, w: VxWorld) -> Seq<char>;
impl Expression {
    #[verifier::external_body]
    pub fn eval<E: VxScope>(&self, env: &mut E, vx_w: &mut VxWorld) -> (r: Result<Expression, Error>)
        ensures (r, *final(vx_w)) == evals(*self, old(env).scope(), *old(vx_w)), final(env).scope() == old(env).scope(),
    { unimplemented!() }
}
pub uninterp spec fn complaint(e: ReadlineError) -> Seq<char>;
impl ReadlineError {
    #[verifier::external_body]
    pub fn vx_to_debug(&self) -> (r: String) ensures r@ == complaint(*self) { unimplemented!() }
}
/// how an error is shown (R02)
pub uninterp spec fn reported(e: Error) -> Seq<char>;
impl VxToString for Error {
    open spec fn shown(&self) -> Seq<char> { reported(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxClone for Result<Expression, Error> {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
pub mod nom { use super::*; verus! { pub enum Err<E> { Incomplete(u8), Error(E), Failure(E) } } }
/// parse_script: proved elsewhere (P01 to P03)
pub uninterp spec fn script_of(s: Seq<char>) -> Result<Expression, nom::Err<SyntaxError>>;
#[verifier::external_body]
pub fn parse_script(s: &str) -> (r: Result<Expression, nom::Err<SyntaxError>>) ensures r == script_of(s@) { unimplemented!() }
impl SyntaxError {
    #[verifier::external_body]
    #[allow(non_upper_case_globals)]
    pub const InternalError: SyntaxError = SyntaxError { p: 0 };
}
pub uninterp spec fn str_of(s: Seq<char>) -> Str;
impl VxInto<Str> for &str {
    open spec fn conv(self) -> Str { str_of(self@) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Str) { unimplemented!() }
}
// ---------------------------------------------------------------- rustyline, as its documentation says
pub enum ReadlineError { Io(u8), Eof, Interrupted, Utf8Error, Other }
#[verifier::external_body]
pub struct FilenameCompleter { p: u8 }
#[verifier::external_body]
pub struct MatchingBracketValidator { p: u8 }
#[verifier::external_body]
pub struct HistoryHinter { p: u8 }
#[verifier::external_body]
pub struct Context<'a> { p: &'a u8 }
#[verifier::external_body]
pub struct PathBuf { p: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Editor<T> { p: core::marker::PhantomData<T> }
/// the hint that the history gives
pub uninterp spec fn history_hint(h: HistoryHinter, line: Seq<char>, pos: usize, ctx: Context<'_>) -> Option<String>;
impl HistoryHinter {
    #[verifier::external_body]
    pub fn hint(&self, line: &str, pos: usize, ctx: &Context<'_>) -> (r: Option<String>) ensures r == history_hint(*self, line@, pos, *ctx) { unimplemented!() }
}
impl Editor<DuneHelper> {
    #[verifier::external_body]
    pub fn readline(&mut self, p: &String, vx_w: &mut VxWorld) -> (r: Result<String, ReadlineError>)
        ensures (r, *final(vx_w)) == entered(*old(vx_w), p@), r == Result::<String, ReadlineError>::Err(ReadlineError::Eof) ==> over(*final(vx_w)),
    { unimplemented!() }
    /// the editor was made with a helper (new_editor)
    #[verifier::external_body]
    pub fn helper_mut(&mut self) -> (r: Option<VxHelper>) ensures r is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn add_history_entry<S: VxStr>(&mut self, s: S, vx_w: &mut VxWorld) -> bool ensures *final(vx_w) == kept(*old(vx_w), s.txt()) { unimplemented!() }
    #[verifier::external_body]
    pub fn save_history(&mut self, p: &PathBuf, vx_w: &mut VxWorld) -> (r: Result<(), ReadlineError>) ensures (r is Ok, *final(vx_w)) == saved(*old(vx_w), *p) { unimplemented!() }
}
/// the helper of an editor: what its functions do to it is part of the world
#[verifier::external_body]
pub struct VxHelper { p: u8 }
impl VxHelper {
    #[verifier::external_body]
    pub fn set_prompt<S: VxStr>(&self, s: S, vx_w: &mut VxWorld) ensures *final(vx_w) == prompting(*old(vx_w), s.txt()) { unimplemented!() }
    #[verifier::external_body]
    pub fn update_env<E: VxScope>(&self, e: &E) { unimplemented!() }
}
pub uninterp spec fn history_at() -> Option<PathBuf>;
/// std::process::exit: only at the end of the input, and as success
#[verifier::external_body]
pub fn exit(n: i32, vx_w: &mut VxWorld) -> ! requires n == 0, over(*old(vx_w)) ensures false { unimplemented!() }
// ---------------------------------------------------------------- std
pub type Arc<T> = Box<T>;
/// nothing panics while a lock is held
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { p: core::marker::PhantomData<T> }
pub uninterp spec fn guarded(m: Mutex<Environment>) -> int;
impl Mutex<Environment> {
    #[verifier::external_body]
    pub fn lock(&self, vx_w: &mut VxWorld) -> (r: Result<VxGuard, u8>) ensures r is Ok, r->Ok_0.scope() == guarded(*self), *final(vx_w) == *old(vx_w) { unimplemented!() }
}
impl Mutex<Editor<DuneHelper>> {
    #[verifier::external_body]
    pub fn lock(&self, vx_w: &mut VxWorld) -> (r: Result<Editor<DuneHelper>, u8>) ensures r is Ok, *final(vx_w) == *old(vx_w) { unimplemented!() }
}
#[verifier::external_body]
pub struct IoError { p: u8 }
impl VxToString for IoError {
    uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
pub mod std { pub mod fs {
    use super::super::*;
    verus! {
    #[verifier::external_body]
    pub fn read_to_string(p: PathBuf, vx_w: &mut VxWorld) -> (r: Result<String, IoError>)
        ensures match r { Ok(s) => words(*old(vx_w), p) == Some(s@), Err(_) => words(*old(vx_w), p) is None }, *final(vx_w) == *old(vx_w),
    { unimplemented!() }
    }
} }
//@ end
//@ file src/bin.rs
//@ types DuneHelper
//@ raw
}
impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axw::ax_prompt, axw::ax_told, axl::ax_mkvec, axl::ax_vec_back, axm::ax_mkstr, axm::ax_str_back};
type R = Result<Expression, Error>;
pub open spec fn strings(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
/// the error a text that does not parse is reported as
pub open spec fn failed(s: Seq<char>, r: Result<Expression, nom::Err<SyntaxError>>) -> Error {
    match r { Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => Error::SyntaxError(str_of(s), e), _ => Error::SyntaxError(str_of(s), SyntaxError::InternalError) }
}
/// parsed, then evaluated
pub open spec fn ran(s: Seq<char>, e: int, w: VxWorld) -> (R, VxWorld) {
    match script_of(s) { Ok(x) => evals(x, e, w), r => (R::Err(failed(s, r)), w) }
}
pub open spec fn named(s: Seq<char>) -> Expression { Expression::Symbol(mkstr(s)) }
pub open spec fn text(s: Seq<char>) -> Expression { Expression::String(mkstr(s)) }
/// the prompt: what the function for it gives for the working directory, or the directory and a dollar sign
pub open spec fn prompt_of(first: bool, e: int, w: VxWorld) -> (Seq<char>, VxWorld) {
    let d = cwd(e, w);
    match evals(call(named(if first { "prompt"@ } else { "incomplete_prompt"@ }), seq![text(d)]), e, w) {
        (Ok(x), w1) => (display(x), w1),
        (Err(_), w1) => (display(text(d + "$ "@)), w1),
    }
}
/// an error of evaluation is reported, and that is all
pub open spec fn judged(q: (R, VxWorld)) -> VxWorld { match q.0 { Err(x) => told(q.1, reported(x) + "\n"@), Ok(_) => q.1 } }
/// what is done with the value of what was typed
pub open spec fn answered(q: (R, VxWorld), e: int) -> VxWorld {
    match q.0 {
        Err(_) => judged(q),
        Ok(Expression::None) => q.1,
        Ok(Expression::Symbol(n)) => judged(evals(call(Expression::Symbol(n), Seq::empty()), e, q.1)),
        Ok(Expression::Macro(a, b)) => judged(evals(call(named("report"@), seq![call(Expression::Macro(a, b), seq![text(cwd(e, q.1))])]), e, q.1)),
        Ok(x) => judged(evals(call(named("report"@), seq![Expression::Quote(Box::new(x))]), e, q.1)),
    }
}
pub open spec fn with_between(l: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else { with_between(l.drop_last(), sep) + sep + l.last() } }
pub trait VxClass { fn vx_is_whitespace(&self) -> bool; }
impl VxClass for char {
    #[verifier::external_body]
    fn vx_is_whitespace(&self) -> bool { unimplemented!() }
}
pub trait VxJoin { fn vx_join<S: VxStr>(&self, s: S) -> String; }
impl VxJoin for Vec<String> {
    #[verifier::external_body]
    fn vx_join<S: VxStr>(&self, s: S) -> (r: String) ensures r@ == with_between(strings(self@), s.txt()) { unimplemented!() }
}
pub trait VxTexts { spec fn t(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.t());
    fn vx_strip_prefix<A: VxStr + ?Sized>(&self, a: &A) -> (r: Option<&str>) ensures match r { Some(x) => starts(self.t(), a.txt()) && x@ == self.t().skip(a.txt().len() as int), None => !starts(self.t(), a.txt()) };
    fn vx_starts_with<A: VxStr + ?Sized>(&self, a: &A) -> (r: bool) ensures r == starts(self.t(), a.txt());
}
impl VxTexts for str {
    open spec fn t(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_prefix<A: VxStr + ?Sized>(&self, a: &A) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with<A: VxStr + ?Sized>(&self, a: &A) -> (r: bool) { unimplemented!() }
}
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) =~= p }
/// the text is put in the history, and the history is saved
pub open spec fn remembered(s: Seq<char>, w: VxWorld) -> VxWorld {
    match history_at() { None => kept(w, s), Some(p) => { let q = saved(kept(w, s), p); if q.0 { q.1 } else { told(q.1, "Failed to save history\n"@) } } }
}
/// the errors that are reported before the user is asked again
pub open spec fn again(r: Result<String, ReadlineError>) -> bool { match r { Err(ReadlineError::Interrupted) | Err(ReadlineError::Eof) | Ok(_) => false, _ => true } }
/// the world when the line was asked for n times in vain, with the prompt set again each time
pub open spec fn asking(p: Seq<char>, n: nat, w: VxWorld) -> VxWorld
    decreases n,
{
    if n == 0 { w } else {
        let q = entered(asking(p, (n - 1) as nat, w), stripped(p));
        match q.0 { Err(x) => prompting(told(q.1, "Error: "@ + complaint(x) + "\n"@), p), _ => q.1 }
    }
}
pub uninterp spec fn stripped(s: Seq<char>) -> Seq<char>;
pub open spec fn at_last(p: Seq<char>, n: nat, w: VxWorld) -> bool {
    !again(entered(asking(p, n, w), stripped(p)).0) && forall|k: nat| k < n ==> again(entered(#[trigger] asking(p, k, w), stripped(p)).0)
}
/// the line the user enters in the end, the empty line when interrupted
pub open spec fn asked(p: Seq<char>, w0: VxWorld) -> (Seq<char>, VxWorld) {
    let w = prompting(w0, p);
    let q = entered(asking(p, choose|n: nat| at_last(p, n, w), w), stripped(p));
    (match q.0 { Ok(s) => s@, Err(_) => Seq::empty() }, q.1)
}
pub proof fn lemma_asked(p: Seq<char>, n: nat, w: VxWorld)
    requires at_last(p, n, w),
    ensures ({ let q = entered(asking(p, n, w), stripped(p)); forall|w0: VxWorld| #[trigger] prompting(w0, p) == w ==> asked(p, w0) == (match q.0 { Ok(s) => s@, Err(_) => Seq::<char>::empty() }, q.1) }),
{
    let m = choose|n: nat| at_last(p, n, w);
    assert(at_last(p, m, w));
    if m < n { assert(again(entered(asking(p, m, w), stripped(p)).0)); }
    if n < m { assert(again(entered(asking(p, n, w), stripped(p)).0)); }
}
/// one line more: what has been typed and not run yet, and the world
pub open spec fn turn(l: Seq<Seq<char>>, e: int, w: VxWorld) -> (Seq<Seq<char>>, VxWorld) {
    let p = prompt_of(l.len() == 0, e, w);
    let q = asked(p.0, p.1);
    let t = with_between(l.push(q.0), "\n"@);
    match script_of(t) {
        Ok(x) => (Seq::empty(), answered(evals(x, e, remembered(t, q.1)), e)),
        r => if q.0.len() == 0 { (Seq::empty(), told(q.1, reported(failed(t, r)) + "\n"@)) } else { (l.push(q.0), kept(q.1, t)) },
    }
}
pub open spec fn session(n: nat, e: int, w: VxWorld) -> (Seq<Seq<char>>, VxWorld)
    decreases n,
{ if n == 0 { (Seq::empty(), w) } else { let q = session((n - 1) as nat, e, w); turn(q.0, e, q.1) } }
/// the commands that are suggested, and the first that what was typed begins
pub open spec fn known() -> Seq<Seq<char>> { seq!["exit 0"@, "ls "@, "rm -ri "@, "cp -r "@, "head "@, "tail "@, "cd "@, "clear"@] }
pub open spec fn completes(i: int, s: Seq<char>) -> bool { 0 <= i < known().len() && starts(known()[i], s) }
pub open spec fn first(s: Seq<char>) -> int { choose|i: int| completes(i, s) && forall|k: int| 0 <= k < i ==> !completes(k, s) }
} // verus!
verus! {
//@ end
//@ file src/bin.rs
//@ assume strip_ansi_escapes
    ensures r@ == stripped($0.shown()),
//@ assume get_history_path
    ensures r == history_at(),
//@ fn parse
    ensures *final(vx_w) == *old(vx_w), r == (match script_of($0@) { Ok(x) => R::Ok(x), q => R::Err(failed($0@, q)) }),
//@ fn run_text
    ensures (r, *final(vx_w)) == ran($0@, old($1).scope(), *old(vx_w)),
//@ fn run_file
    ensures match words(*old(vx_w), $0) { Some(s) => (r, *final(vx_w)) == ran(s, old($1).scope(), *old(vx_w)), None => r is Err && *final(vx_w) == *old(vx_w) },
//@ fn readline loops=1
//@ attrs
    #[verifier::exec_allows_no_decreases_clause]
//@ contract
    ensures (r@, *final(vx_w)) == asked($0.shown(), *old(vx_w)),
//@ before_loop 0
    let ghost go = *vx_w; let ghost gp = prompt@; let ghost gw = prompting(go, gp); let ghost mut gn: nat = 0;
//@ loop 0
    invariant prompt@ == gp, gw == prompting(go, gp), prompting(*vx_w, gp) == asking(gp, gn, gw), forall|k: nat| k < gn ==> again(entered(#[trigger] asking(gp, k, gw), stripped(gp)).0),
//@ loop_start 0
    proof { reveal_strlit(""); if at_last(gp, gn, gw) { lemma_asked(gp, gn, gw); } }
//@ loop_end 0
    proof { gn = gn + 1; }
//@ fn repl loops=1
//@ attrs
    #[verifier::exec_allows_no_decreases_clause]
//@ contract
    ensures false,
//@ before_loop 0
    let ghost gw = *vx_w; let ghost mut gn: nat = 0; let ghost ge = guarded(*$1); let ghost gh = history_path;
    proof { assert(strings(lines@) =~= Seq::empty()); }
//@ loop 0
    invariant ge == guarded(*$1), history_path == history_at(), session(gn, ge, gw) == (strings(lines@), *vx_w),
//@ loop_start 0
    let ghost gl = lines@; let ghost gv = *vx_w;
    proof { assert(gl.len() == 0 <==> strings(gl).len() == 0); }
//@ after_let prompt 0
    proof { assert(Seq::<Expression>::empty().push(text(cwd@)) =~= seq![text(cwd@)]); assert((prompt@, *vx_w) == prompt_of(strings(gl).len() == 0, ge, gv)); }
//@ after_let line 0
    proof { assert((line@, *vx_w) == asked(prompt_of(strings(gl).len() == 0, ge, gv).0, prompt_of(strings(gl).len() == 0, ge, gv).1)); }
//@ after_let text 0
    proof { assert(lines@ =~= gl.push(line)); assert(strings(lines@) =~= strings(gl).push(line@)); assert(text@ == with_between(strings(gl).push(line@), "\n"@)); }
//@ loop_end 0
    proof { gn = gn + 1; if lines@.len() == 0 { assert(strings(lines@) =~= Seq::empty()); } assert(session(gn, ge, gw) == turn(strings(gl), ge, gv)); }
//@ fn DuneHelper::hint@Hinter name=hint loops=2 strslice strlen
    ensures r == (if trimmed($1@).len() > 0 && exists|i: int| completes(i, $1@) { Some(mkstr(known()[first($1@)].skip($1@.len() as int))) } else { history_hint($0.hinter, $1@, $2, *$3) }),
//@ loop 0
    decreases vx_it1@.len(),
//@ before_loop 1
    proof { assert(cmds@.len() == 8); assert forall|i: int| 0 <= i < 8 implies (#[trigger] cmds@[i])@ == known()[i] by { } }
//@ loop 1
    invariant vx_it2@.len() <= 8, trimmed(line@).len() > 0, cmds@.len() == 8, forall|i: int| 0 <= i < 8 ==> (#[trigger] cmds@[i])@ == known()[i],
        forall|i: int| 0 <= i < vx_it2@.len() ==> *(#[trigger] vx_it2@[i]) == cmds@[8 - vx_it2@.len() + i],
        forall|k: int| 0 <= k < 8 - vx_it2@.len() ==> !completes(k, line@),
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ loop_start 1
    proof { if vx_it2@.len() > 0 { let j = 8 - vx_it2@.len(); assert(*vx_it2@[0] == cmds@[j]); if starts(known()[j], line@) { assert(known()[j].take(line@.len() as int) =~= line@); lemma_at_unique(known()[j], bl(line@), line@.len() as int); assert(completes(j, line@)); let f = first(line@); assert(completes(f, line@)); if f < j { assert(!completes(f, line@)); } if j < f { assert(!completes(j, line@)); } } } }
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
