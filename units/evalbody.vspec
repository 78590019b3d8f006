//@ include pre.vspec
//@ include expr.vspec
//@ include std.vspec
//@ include coll.vspec
//@ default vclone streq world=eval_mut,eval,call,status fnvalue=body ctx fmtshow
//@ raw
verus! {
// ---------------------------------------------------------------- what lies outside the program
/// Everything evaluation can touch besides the environment (files, processes, terminal).
#[verifier::external_body]
pub struct VxWorld { p: u8 }
pub type St = (Environment, VxWorld);
pub type Res = Result<Expression, Error>;
pub enum ErrorKind { NotFound, PermissionDenied, Interrupted, InvalidInput, Other }
#[verifier::external_body]
pub struct VxIoError { p: u8 }
impl VxIoError {
    pub uninterp spec fn knd(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.knd() { unimplemented!() }
}
#[verifier::external_body]
pub struct VxStatus { p: u8 }
/// std::process::Command, as far as a call of an external program goes: the program and
/// the directory it runs in. What the run does is left open; it may depend on anything.
#[verifier::external_body]
pub struct Command { p: u8 }
pub uninterp spec fn run_next(w: VxWorld, prog: Seq<char>, dir: Seq<char>, args: Seq<Seq<char>>, vars: Map<Seq<char>, Seq<char>>) -> VxWorld;
/// None: the program ran
pub uninterp spec fn run_err(w: VxWorld, prog: Seq<char>, dir: Seq<char>, args: Seq<Seq<char>>, vars: Map<Seq<char>, Seq<char>>) -> Option<ErrorKind>;
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
impl Command {
    pub uninterp spec fn prog(&self) -> Seq<char>;
    pub uninterp spec fn dir(&self) -> Seq<char>;
    pub uninterp spec fn argv(&self) -> Seq<Seq<char>>;
@{X02}    /// the names it gets besides those the whole process has
@{X02}    pub uninterp spec fn vars(&self) -> Map<Seq<char>, Seq<char>>;
@{!X02}    /// the names it gets: not looked at in this run
@{!X02}    pub open spec fn vars(&self) -> Map<Seq<char>, Seq<char>> { Map::empty() }
    #[verifier::external_body]
    pub fn new<S: VxStr>(s: S) -> (r: Command) ensures r.prog() == s.txt(), r.argv() == Seq::<Seq<char>>::empty(), r.vars() == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn current_dir<S: VxStr>(self, d: S) -> (r: Command) ensures r.prog() == self.prog(), r.dir() == d.txt(), r.argv() == self.argv(), r.vars() == self.vars() { unimplemented!() }
    #[verifier::external_body]
    pub fn args(self, a: Vec<String>) -> (r: Command) ensures r.prog() == self.prog(), r.dir() == self.dir(), r.argv() == self.argv() + texts(a@), r.vars() == self.vars() { unimplemented!() }
    #[verifier::external_body]
    pub fn envs(self, a: BTreeMap<String, String>) -> (r: Command) ensures r.prog() == self.prog(), r.dir() == self.dir(), r.argv() == self.argv(),
@{X02}        r.vars() == self.vars().union_prefer_right(env_of(a)), self.vars() == Map::<Seq<char>, Seq<char>>::empty() ==> r.vars() == env_of(a),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn status(self, vx_w: &mut VxWorld) -> (r: Result<VxStatus, VxIoError>)
        ensures *final(vx_w) == run_next(*old(vx_w), self.prog(), self.dir(), self.argv(), self.vars()),
            match r {
                Ok(_) => run_err(*old(vx_w), self.prog(), self.dir(), self.argv(), self.vars()) is None,
                Err(e) => run_err(*old(vx_w), self.prog(), self.dir(), self.argv(), self.vars()) == Some(e.knd()),
            },
    { unimplemented!() }
}
/// what a builtin does: nothing is assumed about it
pub uninterp spec fn bcall(f: BuiltinFn, args: Seq<Expression>, s: St) -> (Res, St);
impl BuiltinFn {
    #[verifier::external_body]
    pub fn call(&self, args: Vec<Expression>, env: &mut Environment, vx_w: &mut VxWorld) -> (r: Res)
        ensures (r, (*final(env), *final(vx_w))) == bcall(*self, args@, (*old(env), *old(vx_w))),
    { unimplemented!() }
}
/// bytes read as text
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_from_utf8_lossy(b: &Vec<u8>) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }
pub uninterp spec fn env_of(m: BTreeMap<String, String>) -> Map<Seq<char>, Seq<char>>;
pub open spec fn pairs(s: Seq<(String, String)>) -> Map<Seq<char>, Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { Map::empty() } else { pairs(s.drop_last()).insert(s.last().0@, s.last().1@) }
}
impl VxCollect<(String, String)> for BTreeMap<String, String> { open spec fn collected(&self, s: Seq<(String, String)>) -> bool { env_of(*self) == pairs(s) } }
impl VxNew for BTreeMap<String, Expression> { open spec fn fresh(&self) -> bool { self@ == Map::<Seq<char>, Expression>::empty() } }
impl VxPush<(String, Expression)> for BTreeMap<String, Expression> {
    #[verifier::external_body]
    fn vx_push(&mut self, x: (String, Expression)) ensures final(self)@ == old(self)@.insert(x.0@, x.1) { unimplemented!() }
}
pub trait VxSliceTo<T> { fn vx_to_vec(&self) -> Vec<T>; }
impl<T> VxSliceTo<T> for [T] {
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self@, r == mkvec(self@) { unimplemented!() }
}

// ---------------------------------------------------------------- environments
pub open spec fn lookup(e: Environment, k: Seq<char>) -> Option<Expression>
    decreases e,
{
    if e.bindings@.contains_key(k) { Some(e.bindings@[k]) } else {
        match e.parent { Some(p) => lookup(*p, k), None => None }
    }
}
pub open spec fn cwd(e: Environment) -> Seq<char> {
    match lookup(e, "CWD"@) { Some(Expression::String(p)) => p@, _ => "/"@ }
}
/// `e` with `k` bound to `v` in its own scope
pub open spec fn def(e: Environment, k: Seq<char>, v: Expression) -> Environment {
    Environment { bindings: mkmap(e.bindings@.insert(k, v)), parent: e.parent }
}
pub open spec fn at_dir(e: Environment, d: Seq<char>) -> Environment { def(e, "CWD"@, Expression::String(mkstr(d))) }

// ---------------------------------------------------------------- what evaluation means
/// `k` is among the names written in `e`
pub open spec fn uses(e: Expression, k: Seq<char>) -> bool
    decreases e, 0nat,
{
    match e {
        Expression::Symbol(n) => n@ == k,
        Expression::For(_, l, b) => uses(*l, k) || uses(*b, k),
        Expression::Do(x) => uses_upto(x, x@.len(), k),
        Expression::List(x) => uses_upto(x, x@.len(), k),
        Expression::Map(m) => uses_map(m, m.ents().len(), k),
        Expression::Group(x) => uses(*x, k),
        Expression::Quote(x) => uses(*x, k),
        Expression::Lambda(_, b, _) => uses(*b, k),
        Expression::Macro(_, b) => uses(*b, k),
        Expression::Assign(_, x) => uses(*x, k),
        Expression::If(c, x, y) => uses(*c, k) || uses(*x, k) || uses(*y, k),
        Expression::Apply(f, a) => uses(*f, k) || uses_upto(a, a@.len(), k),
        _ => false,
    }
}
pub open spec fn uses_upto(v: Vec<Expression>, n: nat, k: Seq<char>) -> bool
    decreases v, n,
{
    0 < n <= v@.len() && (uses_upto(v, (n - 1) as nat, k) || uses(v@[n - 1], k))
}
pub open spec fn uses_map(m: BTreeMap<String, Expression>, n: nat, k: Seq<char>) -> bool
    decreases m, n via uses_dec
{
    0 < n <= m.ents().len() && (uses_map(m, (n - 1) as nat, k) || uses(m.ents()[n - 1].1, k))
}
#[via_fn]
proof fn uses_dec(m: BTreeMap<String, Expression>, n: nat, k: Seq<char>) {
    broadcast use axe::ax_map_dec;
    if 0 < n <= m.ents().len() { assert(decreases_to!(m => m.ents()[n - 1].1)); }
}
pub open spec fn part_uses(e: Expression, i: int, k: Seq<char>) -> bool { uses(part(e, i), k) }
pub proof fn lemma_upto(e: Expression, v: Vec<Expression>, n: nat, k: Seq<char>)
    requires n <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == part(e, i),
    ensures uses_upto(v, n, k) == (exists|i: int| 0 <= i < n && #[trigger] part_uses(e, i, k)),
    decreases n,
{
    if n > 0 {
        lemma_upto(e, v, (n - 1) as nat, k);
        assert(part_uses(e, n - 1, k) == uses(v@[n - 1], k));
    }
}
pub proof fn lemma_upto_map(e: Expression, v: BTreeMap<String, Expression>, n: nat, k: Seq<char>)
    requires n <= v.ents().len(), e == Expression::Map(v),
    ensures uses_map(v, n, k) == (exists|i: int| 0 <= i < n && #[trigger] part_uses(e, i, k)),
    decreases n,
{
    if n > 0 {
        lemma_upto_map(e, v, (n - 1) as nat, k);
        assert(part_uses(e, n - 1, k) == uses(v.ents()[n - 1].1, k));
    }
}
pub proof fn lemma_mk(v: Vec<Expression>)
    ensures mkvec(v@) == v,
{ broadcast use {axl::ax_mkvec, axl::ax_vec_back, axe::ax_vec_ext}; assert(mkvec(v@)@ == v@); }
pub open spec fn has_text(s: Seq<String>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == k }
pub proof fn lemma_has_text(s: Seq<String>, n: int)
    requires 0 <= n < s.len(),
    ensures forall|k: Seq<char>| #[trigger] has_text(s.take(n + 1), k) == (has_text(s.take(n), k) || s[n]@ == k),
        s.skip(n)[0] == s[n], s.skip(n).skip(1) =~= s.skip(n + 1),
{
    assert forall|k: Seq<char>| #[trigger] has_text(s.take(n + 1), k) == (has_text(s.take(n), k) || s[n]@ == k) by {
        if has_text(s.take(n), k) {
            let i = choose|i: int| 0 <= i < n && (#[trigger] s.take(n)[i])@ == k;
            assert(s.take(n + 1)[i]@ == k);
        }
        if s[n]@ == k { assert(s.take(n + 1)[n]@ == k); }
        if has_text(s.take(n + 1), k) && s[n]@ != k {
            let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] s.take(n + 1)[i])@ == k;
            assert(s.take(n)[i]@ == k);
        }
    }
}
pub open spec fn uses_list(s: Seq<&Expression>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && uses(*#[trigger] s[i], k) }
pub broadcast proof fn lemma_has_add(a: Seq<String>, b: Seq<String>, k: Seq<char>)
    ensures #[trigger] has_text(a + b, k) == (has_text(a, k) || has_text(b, k)),
{
    if has_text(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == k; assert((a + b)[i]@ == k); }
    if has_text(b, k) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == k; assert((a + b)[a.len() + i]@ == k); }
}
pub broadcast proof fn lemma_has_one(a: Seq<String>, x: String, k: Seq<char>)
    ensures #[trigger] has_text(a.push(x), k) == (has_text(a, k) || x@ == k),
{
    assert(a.push(x) =~= a + seq![x]);
    lemma_has_add(a, seq![x], k);
    if x@ == k { assert(seq![x][0]@ == k); }
}
/// the parts of a block, list or map, or the arguments of a call
pub open spec fn part(e: Expression, i: int) -> Expression {
    match e { Expression::Do(x) => x@[i], Expression::List(x) => x@[i], Expression::Map(m) => m.ents()[i].1, Expression::Apply(_, x) => x@[i], _ => arbitrary() }
}
pub open spec fn parts(e: Expression) -> nat {
    match e { Expression::Do(x) => x@.len(), Expression::List(x) => x@.len(), Expression::Map(m) => m.ents().len(), Expression::Apply(_, x) => x@.len(), _ => arbitrary() }
}
pub proof fn lemma_uses_parts(e: Expression, s: Seq<&Expression>)
    requires e is Do || e is List || e is Map || e is Apply, s.len() == parts(e), forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == part(e, i),
    ensures forall|k: Seq<char>| #[trigger] uses(e, k) == (uses_list(s, k) || (e is Apply && uses(*e->Apply_0, k))),
{
    assert forall|k: Seq<char>| #[trigger] uses(e, k) == (uses_list(s, k) || (e is Apply && uses(*e->Apply_0, k))) by {
        match e {
            Expression::Do(x) => { lemma_upto(e, x, x@.len(), k); }
            Expression::List(x) => { lemma_upto(e, x, x@.len(), k); }
            Expression::Map(m) => { lemma_upto_map(e, m, m.ents().len(), k); }
            Expression::Apply(_, x) => { lemma_upto(e, x, x@.len(), k); }
            _ => {}
        }
        if uses_list(s, k) {
            let i = choose|i: int| 0 <= i < s.len() && uses(*#[trigger] s[i], k);
            assert(part_uses(e, i, k));
        }
        if exists|i: int| 0 <= i < parts(e) && #[trigger] part_uses(e, i, k) {
            let i = choose|i: int| 0 <= i < parts(e) && #[trigger] part_uses(e, i, k);
            assert(uses(*s[i], k));
        }
    }
}
pub proof fn lemma_uses_list(s: Seq<&Expression>)
    requires s.len() > 0,
    ensures forall|k: Seq<char>| #[trigger] uses_list(s, k) == (uses(*s[0], k) || uses_list(s.skip(1), k)),
{
    assert forall|k: Seq<char>| #[trigger] uses_list(s, k) == (uses(*s[0], k) || uses_list(s.skip(1), k)) by {
        if uses_list(s, k) {
            let i = choose|i: int| 0 <= i < s.len() && uses(*#[trigger] s[i], k);
            if i > 0 { assert(uses(*s.skip(1)[i - 1], k)); }
        }
        if uses_list(s.skip(1), k) {
            let i = choose|i: int| 0 <= i < s.skip(1).len() && uses(*#[trigger] s.skip(1)[i], k);
            assert(uses(*s[i + 1], k));
        }
    }
}
/// The scope `m` of a function defined with parameter `p`, body `b` and scope `c` where `o` is in scope:
/// `c`'s own names, the parameter, the working directory, and the names of the body that `o` knows and `c` does not.
pub open spec fn captures(m: Map<Seq<char>, Expression>, p: Seq<char>, b: Expression, c: Environment, o: Environment) -> bool {
    let base = c.bindings@.insert(p, Expression::None).insert("CWD"@, Expression::String(mkstr(cwd(o))));
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) == (base.contains_key(k) || taken(k, p, b, c, o))
    &&& forall|k: Seq<char>| m.contains_key(k) ==> #[trigger] m[k] == (if taken(k, p, b, c, o) { lookup(o, k)->0 } else { base[k] })
}
pub open spec fn taken(k: Seq<char>, p: Seq<char>, b: Expression, c: Environment, o: Environment) -> bool {
    uses(b, k) && k != p && lookup(c, k) is None && lookup(o, k) is Some
}
pub open spec fn captured(p: Seq<char>, b: Expression, c: Environment, o: Environment) -> Environment {
    Environment { bindings: choose|m: BTreeMap<String, Expression>| captures(m@, p, b, c, o), parent: c.parent }
}
/// how deep lists and groups nest
pub open spec fn hgt(e: Expression) -> nat
    decreases e,
{
    match e {
        Expression::List(x) => 1 + hvec(x, x@.len()),
        Expression::Group(x) => 1 + hgt(*x),
        _ => 0,
    }
}
pub open spec fn hvec(v: Vec<Expression>, n: nat) -> nat
    decreases v, n,
{
    if n == 0 || n > v@.len() { 0 } else {
        let (a, b) = (hvec(v, (n - 1) as nat), hgt(v@[n - 1]));
        if a > b { a } else { b }
    }
}
pub proof fn lemma_hvec(v: Vec<Expression>, n: nat)
    requires n <= v@.len(),
    ensures forall|i: int| 0 <= i < n ==> hgt(#[trigger] v@[i]) <= hvec(v, n),
    decreases n,
{
    if n > 0 { lemma_hvec(v, (n - 1) as nat); }
}
/// the values inside nested lists and groups, from the left
pub open spec fn flat(e: Expression) -> Seq<Expression>
    decreases e,
{
    match e {
        Expression::List(x) => flatv(x, x@.len()),
        Expression::Group(x) => flat(*x),
        _ => seq![e],
    }
}
pub open spec fn flatv(v: Vec<Expression>, n: nat) -> Seq<Expression>
    decreases v, n,
{
    if n == 0 || n > v@.len() { Seq::empty() } else { flatv(v, (n - 1) as nat) + flat(v@[n - 1]) }
}
pub open spec fn flats(s: Seq<Expression>) -> Seq<Expression>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { flat(s[0]) + flats(s.skip(1)) }
}
pub proof fn lemma_flat(v: Vec<Expression>, n: nat)
    requires n <= v@.len(),
    ensures flatv(v, n) + flats(v@.skip(n as int)) == flatv(v, v@.len()),
    decreases v@.len() - n,
{
    if n < v@.len() {
        lemma_flat(v, n + 1);
        assert(v@.skip(n as int).skip(1) =~= v@.skip(n as int + 1));
        assert(flatv(v, n) + flats(v@.skip(n as int)) =~= flatv(v, n + 1) + flats(v@.skip(n as int + 1)));
    } else {
        assert(flatv(v, n) + flats(v@.skip(n as int)) =~= flatv(v, n));
    }
}
pub broadcast proof fn lemma_flat_one(v: Vec<Expression>)
    ensures v@.len() == 1 ==> #[trigger] flatv(v, v@.len()) == flat(v@[0]),
{
    reveal_with_fuel(flatv, 2);
    if v@.len() == 1 { assert(flatv(v, 0) + flat(v@[0]) =~= flat(v@[0])); }
}
pub broadcast proof fn lemma_hgt_one(v: Vec<Expression>)
    ensures v@.len() == 1 ==> #[trigger] hvec(v, v@.len()) == hgt(v@[0]),
{
    reveal_with_fuel(hvec, 2);
}
/// what a program receives for an argument's value: texts as they are, nothing for None
pub open spec fn arg_text(e: Expression) -> Seq<char> {
    match e { Expression::String(s) => s@, Expression::Bytes(b) => lossy(b@), _ => display(e) }
}
pub open spec fn arg_texts(s: Seq<Expression>) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if s[0] is None { arg_texts(s.skip(1)) } else { seq![arg_text(s[0])] + arg_texts(s.skip(1)) }
}
/// the recursion limit
pub open spec fn limit() -> nat { 800 }
pub open spec fn meas(d: nat) -> nat { if d > limit() + 1 { 0 } else { (limit() + 2 - d) as nat } }
/// The result of evaluating `e` at depth `d`, and the state afterwards.
#[verifier::opaque]
pub open spec fn sem(e: Expression, s: St, d: nat) -> (Res, St)
    decreases meas(d), 0nat, 0nat,
{
    if d > limit() { (Err(Error::RecursionDepth(e)), s) } else { step(e, s, d) }
}
pub open spec fn step(e: Expression, s: St, d: nat) -> (Res, St)
    decreases meas((d + 1) as nat), 3nat, 0nat,
{
    if d > limit() { arbitrary() } else {
        match e {
            Expression::Quote(x) => (Ok(*x), s),
            Expression::Group(x) => sem(*x, s, d + 1),
            Expression::Symbol(n) => (Ok(match lookup(s.0, n@) { Some(v) => v, None => e }), s),
            Expression::Assign(n, x) => {
                let (r, t) = sem(*x, s, d + 1);
                match r { Ok(v) => (Ok(Expression::None), (def(t.0, n@, v), t.1)), Err(_) => (r, t) }
            }
            Expression::For(n, l, b) => {
                let (r, t) = sem(*l, s, d + 1);
                match r {
                    Ok(Expression::List(x)) => sem_for(n@, *b, x@, Seq::empty(), t, d + 1),
                    Ok(_) => (Err(Error::ForNonList(*l)), t),
                    Err(_) => (r, t),
                }
            }
            Expression::If(c, x, y) => {
                let (r, t) = sem(*c, s, d + 1);
                match r { Ok(v) => sem(if truthy(v) { *x } else { *y }, t, d + 1), Err(_) => (r, t) }
            }
            Expression::Apply(f, a) => {
                let (r, t) = sem(*f, s, d + 1);
                match r { Ok(g) => sem_apply(e, *f, a, g, t, d), Err(_) => (r, t) }
            }
            Expression::Lambda(p, b, c) => (Ok(Expression::Lambda(p, b, captured(p@, *b, c, s.0))), s),
            Expression::List(x) => sem_list(x@, Seq::empty(), s, d + 1),
            Expression::Map(m) => sem_map(m.ents(), Map::empty(), s, d + 1),
            Expression::Do(x) => if x@.len() == 0 { (Ok(Expression::None), s) } else { sem_do(x@, s, d + 1) },
            _ => (Ok(e), s),
        }
    }
}
pub proof fn lemma_sem(e: Expression, s: St, d: nat)
    ensures sem(e, s, d) == (if d > limit() { (Err(Error::RecursionDepth(e)), s) } else { step(e, s, d) }),
        d <= limit() ==> match e {
            Expression::Apply(f, a) => {
                let (r, t) = sem(*f, s, d + 1);
                match r {
                    Ok(g) => sem(e, s, d) == sem_apply(e, *f, a, g, t, d) && match g {
                        Expression::Symbol(n) => sem(e, s, d) == run_after(e, n, a, scope_vars(t.0), sem_args(a@, Seq::empty(), t, d + 1)),
                        Expression::String(n) => sem(e, s, d) == run_after(e, n, a, scope_vars(t.0), sem_args(a@, Seq::empty(), t, d + 1)),
                        _ => true,
                    },
                    _ => true,
                }
            }
            _ => true,
        },
{
    reveal(sem);
    if let Expression::Apply(f, a) = e {
        let (r, t) = sem(*f, s, d + 1);
        if d <= limit() { if let Ok(g) = r {
            assert(step(e, s, d) == sem_apply(e, *f, a, g, t, d));
            match g {
                Expression::Symbol(n) => { assert(sem_apply(e, *f, a, g, t, d) == sem_run(e, n, a, t, d)); }
                Expression::String(n) => { assert(sem_apply(e, *f, a, g, t, d) == sem_run(e, n, a, t, d)); }
                _ => {}
            }
        } }
    }
}
/// the call `e` = `f a`, when `f` is `g`
pub open spec fn sem_apply(e: Expression, f: Expression, a: Vec<Expression>, g: Expression, s: St, d: nat) -> (Res, St)
    decreases meas((d + 1) as nat), 2nat, 0nat,
{
    if d > limit() { arbitrary() } else {
        match g {
            Expression::Symbol(n) => sem_run(e, n, a, s, d),
            Expression::String(n) => sem_run(e, n, a, s, d),
            Expression::Lambda(p, b, c) => if a@.len() == 0 { (Err(Error::CannotApply(f, a)), s) } else {
                let (r, t) = sem(a@[0], s, d + 1);
                match r {
                    Err(_) => (r, t),
                    Ok(v) => {
                        let (q, u) = sem(*b, (def(at_dir(c, cwd(s.0)), p@, v), t.1), d + 1);
                        // the caller's bindings are those the argument left
                        match q {
                            Ok(h) => if a@.len() == 1 { (q, (t.0, u.1)) } else { sem(call(h, a@.skip(1)), (t.0, u.1), d + 1) },
                            Err(_) => (q, (t.0, u.1)),
                        }
                    }
                }
            },
            Expression::Macro(p, b) => if a@.len() == 0 { (Err(Error::CannotApply(f, a)), s) } else {
                let (r, t) = sem(a@[0], s, d + 1);
                match r {
                    Err(_) => (r, t),
                    Ok(v) => {
                        let (q, u) = sem(*b, (def(t.0, p@, v), t.1), d + 1);
                        match q {
                            Ok(h) => if a@.len() == 1 { (q, u) } else { sem(call(h, a@.skip(1)), u, d + 1) },
                            Err(_) => (q, u),
                        }
                    }
                }
            },
            Expression::Builtin(b) => bcall(b.body, a@, s),
            _ => (Err(Error::CannotApply(f, a)), s),
        }
    }
}
/// running an external program: its arguments first, from the left
pub open spec fn sem_run(e: Expression, n: String, a: Vec<Expression>, s: St, d: nat) -> (Res, St)
    decreases meas((d + 1) as nat), 1nat, a@.len() + 1,
{
    run_after(e, n, a, scope_vars(s.0), sem_args(a@, Seq::empty(), s, d + 1))
}
@{X02}/// the names of the innermost scope and their values' texts, those of at most 1024 bytes
@{X02}pub open spec fn scope_vars(e: Environment) -> Map<Seq<char>, Seq<char>> { named_texts(e.bindings.ents()) }
@{X02}pub open spec fn named_texts(x: Seq<(String, Expression)>) -> Map<Seq<char>, Seq<char>>
@{X02}    decreases x.len(),
@{X02}{
@{X02}    if x.len() == 0 { Map::empty() } else {
@{X02}        let m = named_texts(x.drop_last());
@{X02}        if bl(display(x.last().1)) <= 1024 { m.insert(x.last().0@, display(x.last().1)) } else { m }
@{X02}    }
@{X02}}
@{!X02}pub open spec fn scope_vars(e: Environment) -> Map<Seq<char>, Seq<char>> { Map::empty() }
pub open spec fn run_after(e: Expression, n: String, a: Vec<Expression>, vars: Map<Seq<char>, Seq<char>>, p: (Result<Seq<Seq<char>>, Error>, St)) -> (Res, St) {
    let (r, t) = p;
    match r {
        Err(x) => (Err(x), t),
        Ok(v) => (match run_err(t.1, n@, cwd(t.0), v, vars) {
            None => Ok(Expression::None),
            Some(ErrorKind::NotFound) => Err(Error::ProgramNotFound(n)),
            Some(ErrorKind::PermissionDenied) => Err(Error::PermissionDenied(e)),
            Some(_) => Err(Error::CommandFailed(n, a)),
        }, (t.0, run_next(t.1, n@, cwd(t.0), v, vars))),
    }
}
pub open spec fn sem_args(x: Seq<Expression>, acc: Seq<Seq<char>>, s: St, d: nat) -> (Result<Seq<Seq<char>>, Error>, St)
    decreases meas(d), 1nat, x.len(),
{
    if x.len() == 0 { (Ok(acc), s) } else {
        let (r, t) = sem(x[0], s, d);
        match r { Ok(v) => sem_args(x.skip(1), acc + arg_texts(flat(v)), t, d), Err(q) => (Err(q), t) }
    }
}
pub open spec fn sem_list(x: Seq<Expression>, acc: Seq<Expression>, s: St, d: nat) -> (Res, St)
    decreases meas(d), 1nat, x.len(),
{
    if x.len() == 0 { (Ok(Expression::List(mkvec(acc))), s) } else {
        let (r, t) = sem(x[0], s, d);
        match r { Ok(v) => sem_list(x.skip(1), acc.push(v), t, d), Err(_) => (r, t) }
    }
}
pub open spec fn sem_map(x: Seq<(String, Expression)>, acc: Map<Seq<char>, Expression>, s: St, d: nat) -> (Res, St)
    decreases meas(d), 1nat, x.len(),
{
    if x.len() == 0 { (Ok(Expression::Map(mkmap(acc))), s) } else {
        let (r, t) = sem(x[0].1, s, d);
        match r { Ok(v) => sem_map(x.skip(1), acc.insert(x[0].0@, v), t, d), Err(_) => (r, t) }
    }
}
pub open spec fn sem_for(n: Seq<char>, b: Expression, x: Seq<Expression>, acc: Seq<Expression>, s: St, d: nat) -> (Res, St)
    decreases meas(d), 1nat, x.len(),
{
    if x.len() == 0 { (Ok(Expression::List(mkvec(acc))), s) } else {
        let (r, t) = sem(b, (def(s.0, n, x[0]), s.1), d);
        match r { Ok(v) => sem_for(n, b, x.skip(1), acc.push(v), t, d), Err(_) => (r, t) }
    }
}
pub open spec fn sem_do(x: Seq<Expression>, s: St, d: nat) -> (Res, St)
    decreases meas(d), 1nat, x.len(),
{
    if x.len() == 0 { (Ok(Expression::None), s) } else {
        let (r, t) = sem(x[0], s, d);
        if x.len() == 1 { (r, t) } else { match r { Ok(_) => sem_do(x.skip(1), t, d), Err(_) => (r, t) } }
    }
}
// ---------------------------------------------------------------- which run of this unit proves what
/// `e` calls a function or a macro with at least one argument
pub open spec fn own_call(e: Expression, s: St, d: nat) -> bool {
    match e {
        Expression::Apply(f, a) => a@.len() > 0 && match sem(*f, s, d + 1).0 { Ok(Expression::Lambda(_, _, _)) => true, Ok(Expression::Macro(_, _)) => true, _ => false },
        _ => false,
    }
}
pub open spec fn is_data(e: Expression) -> bool {
    e is None || e is Integer || e is Float || e is Boolean || e is Bytes || e is String || e is Macro || e is Builtin
}
pub open spec fn e02(e: Expression, s: St, d: nat) -> bool {
    e is Do || e is List || e is Map || e is If || e is For || e is Assign || e is Group || (e is Apply && !own_call(e, s, d))
}
@{X02}pub open spec fn x02(e: Expression, s: St, d: nat) -> bool {
@{X02}    e is Apply && (match sem(*e->Apply_0, s, (d + 1) as nat).0 { Ok(g) => g is Symbol || g is String, Err(_) => false })
@{X02}}
@{X02}pub open spec fn texts_of(t: Seq<(String, String)>, x: Seq<(String, Expression)>, n: int) -> bool {
@{X02}    t.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] t[i]).0@ == x[i].0@ && t[i].1@ == display(x[i].1)
@{X02}}
pub open spec fn e03(e: Expression, s: St, d: nat) -> bool { e is Lambda || own_call(e, s, d) }
pub open spec fn e04(e: Expression, s: St, d: nat) -> bool { is_data(e) || e is Quote || e is Symbol }
/// every evaluation step is proved by one of the runs for E02, E03 and E04
pub proof fn lemma_cover(e: Expression, s: St, d: nat)
    ensures e02(e, s, d) || e03(e, s, d) || e04(e, s, d),
{ }
// ---------------------------------------------------------------- the properties, read off the relation
@{E04}/// data, macros and builtins yield themselves and change nothing; a quote yields its content;
@{E04}/// a name yields its value, or itself
@{E04}pub proof fn theorem_stable(e: Expression, s: St, d: nat)
@{E04}    requires d <= limit(),
@{E04}    ensures is_data(e) ==> sem(e, s, d) == (Ok::<Expression, Error>(e), s),
@{E04}        e is Quote ==> sem(e, s, d) == (Ok::<Expression, Error>(*e->Quote_0), s),
@{E04}        e is Symbol ==> sem(e, s, d) == (Ok::<Expression, Error>(match lookup(s.0, e->Symbol_0@) { Some(v) => v, None => e }), s),
@{E04}{ lemma_sem(e, s, d); }
@{E02}/// a block runs its first statements, then the others in the state these left; the first error ends it
@{E02}pub proof fn theorem_block(x: Seq<Expression>, y: Seq<Expression>, s: St, d: nat)
@{E02}    requires x.len() > 0, y.len() > 0,
@{E02}    ensures sem_do(x + y, s, d) == (match sem_do(x, s, d) { (Ok(_), t) => sem_do(y, t, d), (Err(q), t) => (Err(q), t) }),
@{E02}    decreases x.len(),
@{E02}{
@{E02}    reveal(sem);
@{E02}    assert((x + y).skip(1) =~= x.skip(1) + y);
@{E02}    if x.len() > 1 { theorem_block(x.skip(1), y, s_after(x[0], s, d), d); } else { assert(x.skip(1) + y =~= y); }
@{E02}}
@{E02}pub open spec fn s_after(e: Expression, s: St, d: nat) -> St { sem(e, s, d).1 }
@{E02}/// a list's elements are evaluated once each, from the left, up to the first error
@{E02}pub proof fn theorem_list(x: Seq<Expression>, acc: Seq<Expression>, s: St, d: nat)
@{E02}    requires x.len() > 0,
@{E02}    ensures sem_list(x, acc, s, d) == (match sem(x[0], s, d) { (Ok(v), t) => sem_list(x.skip(1), acc.push(v), t, d), (Err(q), t) => (Err(q), t) }),
@{E02}        sem_args(x, Seq::empty(), s, d) == (match sem(x[0], s, d) { (Ok(v), t) => sem_args(x.skip(1), arg_texts(flat(v)), t, d), (Err(q), t) => (Err(q), t) }),
@{E02}{ reveal(sem); assert(forall|v: Expression| Seq::<Seq<char>>::empty() + arg_texts(flat(v)) =~= #[trigger] arg_texts(flat(v))); }
@{E02}/// if evaluates the condition, then one branch, in the state the condition left
@{E02}pub proof fn theorem_if(c: Box<Expression>, x: Box<Expression>, y: Box<Expression>, s: St, d: nat)
@{E02}    requires d <= limit(),
@{E02}    ensures sem(Expression::If(c, x, y), s, d) == (match sem(*c, s, d + 1) {
@{E02}        (Ok(v), t) => if truthy(v) { sem(*x, t, d + 1) } else { sem(*y, t, d + 1) },
@{E02}        (Err(q), t) => (Err(q), t),
@{E02}    }),
@{E02}{ reveal(sem); lemma_sem(Expression::If(c, x, y), s, d); }
@{E02}/// a loop binds each element in order and runs the body once for each, in the state left so far
@{E02}pub proof fn theorem_for(n: Seq<char>, b: Expression, x: Seq<Expression>, acc: Seq<Expression>, s: St, d: nat)
@{E02}    requires x.len() > 0,
@{E02}    ensures sem_for(n, b, x, acc, s, d) == (match sem(b, (def(s.0, n, x[0]), s.1), d) { (Ok(v), t) => sem_for(n, b, x.skip(1), acc.push(v), t, d), (Err(q), t) => (Err(q), t) }),
@{E02}        sem_for(n, b, Seq::empty(), acc, s, d) == (Ok::<Expression, Error>(Expression::List(mkvec(acc))), s),
@{E02}{ reveal(sem); }
@{X02}proof fn lemma_unlike(a: Seq<char>)
@{X02}    ensures !text_lt(a, a),
@{X02}    decreases a.len(),
@{X02}{ if a.len() > 0 { lemma_unlike(a.skip(1)); } }
@{X02}pub open spec fn gives(x: Seq<(String, Expression)>, i: int, k: Seq<char>) -> bool { 0 <= i < x.len() && x[i].0@ == k && bl(display(x[i].1)) <= 1024 }
@{X02}proof fn lemma_named(x: Seq<(String, Expression)>, k: Seq<char>)
@{X02}    requires forall|i: int, j: int| 0 <= i < j < x.len() ==> (#[trigger] x[i]).0@ != (#[trigger] x[j]).0@,
@{X02}    ensures named_texts(x).contains_key(k) == (exists|i: int| #[trigger] gives(x, i, k)), forall|i: int| #[trigger] gives(x, i, k) ==> named_texts(x)[k] == display(x[i].1),
@{X02}    decreases x.len(),
@{X02}{
@{X02}    if x.len() > 0 {
@{X02}        let y = x.drop_last();
@{X02}        lemma_named(y, k);
@{X02}        let n = x.len() - 1;
@{X02}        assert forall|i: int| #[trigger] gives(y, i, k) implies gives(x, i, k) by { assert(y[i] == x[i]); }
@{X02}        assert forall|i: int| #[trigger] gives(x, i, k) implies i == n || gives(y, i, k) by { if i != n { assert(y[i] == x[i]); } }
@{X02}        assert(x.last() == x[n]);
@{X02}        if x[n].0@ == k && bl(display(x[n].1)) <= 1024 { assert(gives(x, n, k)); }
@{X02}        if named_texts(y).contains_key(k) { let i = choose|i: int| #[trigger] gives(y, i, k); assert(gives(x, i, k)); }
@{X02}        if x[n].0@ == k { assert forall|i: int| !gives(y, i, k) by { if gives(y, i, k) { assert(y[i] == x[i]); } } }
@{X02}    }
@{X02}}
@{X02}/// what a program is given besides the process's own names: those of the innermost scope and no others
@{X02}pub proof fn theorem_vars(e: Environment, k: Seq<char>)
@{X02}    ensures scope_vars(e).contains_key(k) == (e.bindings@.contains_key(k) && bl(display(e.bindings@[k])) <= 1024),
@{X02}        scope_vars(e).contains_key(k) ==> scope_vars(e)[k] == display(e.bindings@[k]),
@{X02}{
@{X02}    broadcast use {axe::ax_map_ordered, axe::ax_map_ents, axe::ax_map_view};
@{X02}    let x = e.bindings.ents();
@{X02}    assert(ordered(x));
@{X02}    assert forall|i: int, j: int| 0 <= i < j < x.len() implies (#[trigger] x[i]).0@ != (#[trigger] x[j]).0@ by { lemma_unlike(x[i].0@); }
@{X02}    lemma_named(x, k);
@{X02}    if e.bindings@.contains_key(k) && bl(display(e.bindings@[k])) <= 1024 {
@{X02}        let i = choose|i: int| 0 <= i < e.bindings.ents().len() && (#[trigger] e.bindings.ents()[i]).0@ == k;
@{X02}        assert(gives(x, i, k));
@{X02}    }
@{X02}}
@{X02}/// a call of a name or text that is no function: the operands' words, from the left, then one run
@{X02}pub proof fn theorem_run(e: Expression, s: St, d: nat)
@{X02}    requires d <= limit(), e is Apply, sem(*e->Apply_0, s, d + 1).0 is Ok,
@{X02}    ensures ({
@{X02}        let t = sem(*e->Apply_0, s, d + 1).1;
@{X02}        let (w, u) = sem_args(e->Apply_1@, Seq::empty(), t, d + 1);
@{X02}        match sem(*e->Apply_0, s, d + 1).0->Ok_0 {
@{X02}            Expression::Symbol(n) | Expression::String(n) => match w {
@{X02}                Err(x) => sem(e, s, d) == (Err::<Expression, Error>(x), u),
@{X02}                Ok(v) => sem(e, s, d).1 == (u.0, run_next(u.1, n@, cwd(u.0), v, scope_vars(t.0)))
@{X02}                    && (run_err(u.1, n@, cwd(u.0), v, scope_vars(t.0)) is None ==> sem(e, s, d).0 == Ok::<Expression, Error>(Expression::None))
@{X02}                    && (run_err(u.1, n@, cwd(u.0), v, scope_vars(t.0)) is Some ==> sem(e, s, d).0 is Err),
@{X02}            },
@{X02}            _ => true,
@{X02}        }
@{X02}    }),
@{X02}{ lemma_sem(e, s, d); }
@{E03}/// a call of a function leaves the caller's bindings as evaluating the callee and the argument left them
@{E03}pub proof fn theorem_caller(e: Expression, s: St, d: nat)
@{E03}    requires d <= limit(), e is Apply, e->Apply_1@.len() == 1, sem(*e->Apply_0, s, d + 1).0 is Ok, sem(*e->Apply_0, s, d + 1).0->Ok_0 is Lambda,
@{E03}    ensures sem(e, s, d).1.0 == sem(e->Apply_1@[0], sem(*e->Apply_0, s, d + 1).1, d + 1).1.0,
@{E03}{ reveal(sem); lemma_sem(e, s, d); }
@{E03}/// what a function's body sees: its parameter, the caller's directory, and what its definition captured
@{E03}pub proof fn theorem_body(c: Environment, p: Seq<char>, v: Expression, w: Seq<char>, k: Seq<char>)
@{E03}    ensures lookup(def(at_dir(c, w), p, v), k) == (if k == p { Some(v) } else if k == "CWD"@ { Some(Expression::String(mkstr(w))) } else { lookup(c, k) }),
@{E03}{
@{E03}    broadcast use {axm::ax_mkmap, axm::ax_map_back};
@{E03}    assert(def(at_dir(c, w), p, v).parent == c.parent);
@{E03}    assert(def(at_dir(c, w), p, v).bindings@ == c.bindings@.insert("CWD"@, Expression::String(mkstr(w))).insert(p, v));
@{E03}}
@{E03}/// what a definition captures: every name of the body that the enclosing scope knows, with its value there
@{E03}pub proof fn theorem_capture(p: Seq<char>, b: Expression, c: Environment, o: Environment, k: Seq<char>)
@{E03}    requires uses(b, k), k != p, k != "CWD"@, lookup(c, k) is None, lookup(o, k) is Some, exists|m: BTreeMap<String, Expression>| captures(m@, p, b, c, o),
@{E03}    ensures lookup(captured(p, b, c, o), k) == lookup(o, k),
@{E03}{
@{E03}    let m = choose|m: BTreeMap<String, Expression>| captures(m@, p, b, c, o);
@{E03}    assert(taken(k, p, b, c, o));
@{E03}    assert(m@.contains_key(k));
@{E03}}
@{E03}/// a macro's body runs in the caller's own scope, with the parameter bound there
@{E03}pub proof fn theorem_macro(e: Expression, s: St, d: nat)
@{E03}    requires d <= limit(), e is Apply, e->Apply_1@.len() == 1, sem(*e->Apply_0, s, d + 1).0 is Ok, sem(*e->Apply_0, s, d + 1).0->Ok_0 is Macro,
@{E03}        sem(e->Apply_1@[0], sem(*e->Apply_0, s, d + 1).1, d + 1).0 is Ok,
@{E03}    ensures ({
@{E03}        let (v, t) = sem(e->Apply_1@[0], sem(*e->Apply_0, s, d + 1).1, d + 1);
@{E03}        let m = sem(*e->Apply_0, s, d + 1).0->Ok_0;
@{E03}        sem(e, s, d) == sem(*m->Macro_1, (def(t.0, m->Macro_0@, v->Ok_0), t.1), d + 1)
@{E03}    }),
@{E03}{ reveal(sem); lemma_sem(e, s, d); let m = sem(*e->Apply_0, s, d + 1).0->Ok_0; let (v, t) = sem(e->Apply_1@[0], sem(*e->Apply_0, s, d + 1).1, d + 1);
@{E03}  lemma_sem(*m->Macro_1, (def(t.0, m->Macro_0@, v->Ok_0), t.1), d + 1); }
} // verus!
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_map_key_ext, axe::ax_vec_ext, axm::ax_mkmap, axm::ax_map_back, axm::ax_mkstr, axm::ax_str_back, axl::ax_mkvec, axl::ax_vec_back};
//@ end
//@ file src/env.rs
//@ consts CWD_ENV_VAR
//@ fn Environment::get
    ensures r == lookup(*self, name@),
    decreases *self,
//@ fn Environment::is_defined
    ensures r == (lookup(*self, name@) is Some),
    decreases *self,
//@ fn Environment::define
    ensures *final(self) == def(*old(self), name@, expr),
//@ fn Environment::get_cwd
    ensures r@ == cwd(*self),
//@ fn Environment::set_cwd
    ensures *final(self) == at_dir(*old(self), cwd.shown()),
//@ file src/expr.rs
//@ consts MAX_RECURSION_DEPTH
//@ fn Expression::is_truthy tags=E02
    ensures r == truthy(*self),
//@ assume Expression::is_truthy tags=!E02
    ensures r == truthy(*self),
//@ assume Expression::get_used_symbols tags=!E01,E03
    ensures forall|k: Seq<char>| #[trigger] has_text(r@, k) == uses(*self, k),
//@ fn Expression::get_used_symbols tags=E01,E03 loops=3
@{E03}    ensures forall|k: Seq<char>| #[trigger] has_text(r@, k) == uses(*self, k),
    decreases *self,
//@ entry
    broadcast use {axe::ax_map_dec, lemma_has_add, lemma_has_one};
//@ before_loop 0
@{E03}    proof { lemma_uses_parts(*self, vx_it1@); }
//@ loop 0
    invariant
@{E03}        forall|k: Seq<char>| (#[trigger] has_text(result@, k) || uses_list(vx_it1@, k)) == uses(*self, k),
        forall|i: int| 0 <= i < vx_it1@.len() ==> decreases_to!(*self => *#[trigger] vx_it1@[i]),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
@{E03}    let ghost gs0 = result@;
@{E03}    let ghost gi0 = vx_it1@;
@{E03}    proof { if vx_it1@.len() > 0 { lemma_uses_list(vx_it1@); } }
//@ loop_end 0
@{E03}    proof {
@{E03}        assert forall|k: Seq<char>| (#[trigger] has_text(result@, k) || uses_list(vx_it1@, k)) == uses(*self, k) by {
@{E03}            assert((has_text(gs0, k) || uses_list(gi0, k)) == uses(*self, k));
@{E03}            assert(has_text(result@, k) == (has_text(gs0, k) || uses(*gi0[0], k)));
@{E03}        }
@{E03}    }
//@ before_loop 1
@{E03}    proof { lemma_uses_parts(*self, vx_it2@); }
//@ loop 1
    invariant
@{E03}        forall|k: Seq<char>| (#[trigger] has_text(result@, k) || uses_list(vx_it2@, k)) == uses(*self, k),
        forall|i: int| 0 <= i < vx_it2@.len() ==> decreases_to!(*self => *#[trigger] vx_it2@[i]),
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ loop_start 1
@{E03}    let ghost gs0 = result@;
@{E03}    let ghost gi0 = vx_it2@;
@{E03}    proof { if vx_it2@.len() > 0 { lemma_uses_list(vx_it2@); } }
//@ loop_end 1
@{E03}    proof {
@{E03}        assert forall|k: Seq<char>| (#[trigger] has_text(result@, k) || uses_list(vx_it2@, k)) == uses(*self, k) by {
@{E03}            assert((has_text(gs0, k) || uses_list(gi0, k)) == uses(*self, k));
@{E03}            assert(has_text(result@, k) == (has_text(gs0, k) || uses(*gi0[0], k)));
@{E03}        }
@{E03}    }
//@ before_loop 2
@{E03}    proof { lemma_uses_parts(*self, vx_it3@); }
//@ loop 2
    invariant
@{E03}        forall|k: Seq<char>| (#[trigger] has_text(result@, k) || uses_list(vx_it3@, k)) == uses(*self, k),
        forall|i: int| 0 <= i < vx_it3@.len() ==> decreases_to!(*self => *#[trigger] vx_it3@[i]),
    ensures vx_it3@.len() == 0,
    decreases vx_it3@.len(),
//@ loop_start 2
@{E03}    let ghost gs0 = result@;
@{E03}    let ghost gi0 = vx_it3@;
@{E03}    proof { if vx_it3@.len() > 0 { lemma_uses_list(vx_it3@); } }
//@ loop_end 2
@{E03}    proof {
@{E03}        assert forall|k: Seq<char>| (#[trigger] has_text(result@, k) || uses_list(vx_it3@, k)) == uses(*self, k) by {
@{E03}            assert((has_text(gs0, k) || uses_list(gi0, k)) == uses(*self, k));
@{E03}            assert(has_text(result@, k) == (has_text(gs0, k) || uses(*gi0[0], k)));
@{E03}        }
@{E03}    }
//@ fn Expression::flatten loops=1
    ensures r@ == flatv(args, args@.len()),
    decreases hvec(args, args@.len()),
//@ entry
    broadcast use {lemma_flat_one, lemma_hgt_one};
    proof { lemma_hvec(args, args@.len()); lemma_flat(args, 0); assert(args@.skip(0) =~= args@); }
//@ loop 0
    invariant forall|i: int| 0 <= i < vx_it1@.len() ==> hgt(#[trigger] vx_it1@[i]) <= hvec(args, args@.len()),
        result@ + flats(vx_it1@) =~= flatv(args, args@.len()),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ fn Expression::eval_mut loops=10
@{!E01}    ensures (r, (*final(env), *final(vx_w))) == sem(self, (*old(env), *old(vx_w)), depth__0 as nat),
@{E01}    ensures depth__0 > limit() ==> r == Err::<Expression, Error>(Error::RecursionDepth(self)) && *final(env) == *old(env) && *final(vx_w) == *old(vx_w),
    decreases meas(depth__0 as nat),
//@ loop 0
@{!E01}    invariant depth__0 <= depth, sem(vx_self, (*env, *vx_w), depth as nat) == sem(self, (*old(env), *old(vx_w)), depth__0 as nat),
@{E01}    invariant depth__0 <= depth, depth__0 > limit() ==> vx_self == self && *env == *old(env) && *vx_w == *old(vx_w) && depth == depth__0,
    decreases meas(depth as nat),
//@ loop_start 0
    let ghost gs = sem(self, (*old(env), *old(vx_w)), depth__0 as nat);
    let ghost ge = vx_self;
@{!E01}    proof { lemma_sem(ge, (*env, *vx_w), depth as nat); }
    let ghost gd = (depth + 1) as nat;
@{E02}    proof { if !e02(ge, (*env, *vx_w), depth as nat) { assume(false); } }
@{X02}    proof { if !x02(ge, (*env, *vx_w), depth as nat) { assume(false); } }
@{E03}    proof { if !e03(ge, (*env, *vx_w), depth as nat) { assume(false); } }
@{E04}    proof { if !e04(ge, (*env, *vx_w), depth as nat) { assume(false); } }
//@ loop_end 0
@{!E01}    proof { if ge is Apply { let ga = ge->Apply_1; if ga@.len() > 1 { assert(ga@.subrange(1, ga@.len() as int) =~= ga@.skip(1)); } } }
//@ loop 1
@{!E01}    invariant sem_for(name@, *body, vx_it1@, results@, (*env, *vx_w), gd) == gs,
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ after_loop 1
@{!E01}    proof { assert(sem_for(name@, *body, vx_it1@, results@, (*env, *vx_w), gd) == (Ok::<Expression, Error>(Expression::List(mkvec(results@))), (*env, *vx_w))); lemma_mk(results); }
//@ loop 2
@{X02}    invariant vx_it2@.len() <= env.bindings.ents().len(), vx_it2@ =~= env.bindings.ents().skip(env.bindings.ents().len() - vx_it2@.len()),
@{X02}        texts_of(vx_out1@, env.bindings.ents(), env.bindings.ents().len() - vx_it2@.len()),
@{X02}    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ loop 3
@{X02}    invariant vx_it3@.len() <= ga.len(), vx_it3@ =~= ga.skip(ga.len() - vx_it3@.len()), pairs(vx_out2@) == named_texts(env.bindings.ents().take(ga.len() - vx_it3@.len())),
@{X02}    ensures vx_it3@.len() == 0,
    decreases vx_it3@.len(),
@{X02}//@ before_loop 3
@{X02}    let ghost ga = vx_it3@;
@{X02}//@ loop_start 3
@{X02}    let ghost gn = ga.len() - vx_it3@.len();
@{X02}    let ghost go = vx_out2@;
@{X02}    proof { if vx_it3@.len() > 0 {
@{X02}        let ge3 = env.bindings.ents();
@{X02}        assert(ge3.take(gn + 1).drop_last() =~= ge3.take(gn));
@{X02}        assert forall|c: (String, String)| #[trigger] pairs(go.push(c)) == pairs(go).insert(c.0@, c.1@) by { assert(go.push(c).drop_last() =~= go); }
@{X02}    } }
@{X02}//@ after_loop 3
@{X02}    proof { assert(env.bindings.ents().take(ga.len() as int) =~= env.bindings.ents()); }
//@ before_loop 4
    proof { assert(args@.skip(0) =~= args@); assert(texts(cmd_args@) =~= Seq::<Seq<char>>::empty()); }
    let ghost vx_vars = scope_vars(*env);
@{!E01}    proof { assert(gs == run_after(ge, name, *args, scope_vars(*env), sem_args(args@, Seq::empty(), (*env, *vx_w), gd))); }
//@ loop 4
    invariant vx_it4@.len() <= args@.len(),
        forall|i: int| 0 <= i < vx_it4@.len() ==> *(#[trigger] vx_it4@[i]) == args@[args@.len() - vx_it4@.len() + i],
@{!E01}        run_after(ge, name, *args, vx_vars, sem_args(args@.skip(args@.len() - vx_it4@.len()), texts(cmd_args@), (*env, *vx_w), gd)) == gs,
    ensures vx_it4@.len() == 0,
    decreases vx_it4@.len(),
//@ loop_start 4
    let ghost gr = args@.skip(args@.len() - vx_it4@.len());
    let ghost gt = texts(cmd_args@);
    proof { if vx_it4@.len() > 0 { assert(gr.skip(1) =~= args@.skip(args@.len() - vx_it4@.len() + 1)); } }
    broadcast use lemma_flat_one;
//@ before_loop 5
    let ghost gv = vx_it5@;
    proof { assert(gt + arg_texts(gv) =~= texts(cmd_args@) + arg_texts(gv)); }
//@ loop_start 5
@{!E01}    let ghost gc = texts(cmd_args@);
@{!E01}    proof {
@{!E01}        if vx_it5@.len() > 0 && !(vx_it5@[0] is None) {
@{!E01}            let x = arg_text(vx_it5@[0]);
@{!E01}            assert(gc + arg_texts(vx_it5@) =~= gc.push(x) + arg_texts(vx_it5@.skip(1)));
@{!E01}            assert forall|c: String| #[trigger] texts(cmd_args@.push(c)) == gc.push(c@) by { assert(texts(cmd_args@.push(c)) =~= gc.push(c@)); }
@{!E01}        }
@{!E01}    }
//@ loop 5
@{!E01}    invariant texts(cmd_args@) + arg_texts(vx_it5@) =~= gt + arg_texts(gv),
    ensures vx_it5@.len() == 0,
    decreases vx_it5@.len(),
//@ before_loop 6
    let ghost gu = vx_it6@;
    let ghost gb = captured.bindings@.insert(param@, Expression::None).insert("CWD"@, Expression::String(mkstr(cwd(*env))));
//@ loop 6
    invariant
@{!E01}        vx_it6@.len() <= gu.len(), vx_it6@ =~= gu.skip(gu.len() - vx_it6@.len()),
@{!E01}        tmp_env.parent == captured.parent,
@{!E01}        forall|k: Seq<char>| #[trigger] tmp_env.bindings@.contains_key(k) == (gb.contains_key(k) || (taken(k, param@, *body, captured, *env) && has_text(gu.take(gu.len() - vx_it6@.len()), k))),
@{!E01}        forall|k: Seq<char>| tmp_env.bindings@.contains_key(k) ==> #[trigger] tmp_env.bindings@[k] ==
@{!E01}            (if taken(k, param@, *body, captured, *env) && has_text(gu.take(gu.len() - vx_it6@.len()), k) { lookup(*env, k)->0 } else { gb[k] }),
    ensures vx_it6@.len() == 0,
    decreases vx_it6@.len(),
//@ loop_start 6
    let ghost gn = gu.len() - vx_it6@.len();
    let ghost gm = tmp_env.bindings@;
@{!E01}    proof { if vx_it6@.len() > 0 { lemma_has_text(gu, gn); } }
//@ loop_end 6
@{!E01}    proof {
@{!E01}        let gk = gu[gn]@;
@{!E01}        assert(has_text(gu, gk));
@{!E01}        assert(tmp_env.bindings@ =~= if taken(gk, param@, *body, captured, *env) { gm.insert(gk, lookup(*env, gk)->0) } else { gm });
@{!E01}    }
//@ after_loop 6
@{!E01}    proof {
@{!E01}        assert(gu.take(gu.len() as int) =~= gu);
@{!E01}        assert forall|k: Seq<char>| taken(k, param@, *body, captured, *env) implies #[trigger] has_text(gu, k) by { }
@{!E01}        assert(captures(tmp_env.bindings@, param@, *body, captured, *env));
@{!E01}        let m = choose|m: BTreeMap<String, Expression>| captures(m@, param@, *body, captured, *env);
@{!E01}        assert(m@ =~= tmp_env.bindings@);
@{!E01}    }
//@ loop 7
    invariant
@{!E01}        vx_er1 is None, sem_list(vx_it7@, vx_out3@, (*env, *vx_w), gd) == gs,
    ensures
@{!E01}        match vx_er1 { Some(x) => gs == (Err::<Expression, Error>(x), (*env, *vx_w)), None => vx_it7@.len() == 0 && sem_list(vx_it7@, vx_out3@, (*env, *vx_w), gd) == gs },
    decreases vx_it7@.len(),
//@ after_loop 7
@{!E01}    proof { lemma_mk(vx_out3); }
//@ loop 8
    invariant
@{!E01}        vx_er2 is None, sem_map(vx_it8@, vx_out4@, (*env, *vx_w), gd) == gs,
    ensures
@{!E01}        match vx_er2 { Some(x) => gs == (Err::<Expression, Error>(x), (*env, *vx_w)), None => vx_it8@.len() == 0 && sem_map(vx_it8@, vx_out4@, (*env, *vx_w), gd) == gs },
    decreases vx_it8@.len(),
//@ after_loop 8
@{!E01}    proof { assert(mkmap(vx_out4@)@ == vx_out4@); assert(mkmap(vx_out4@) == vx_out4); }
//@ before_loop 9
    proof { assert(exprs@.skip(0) =~= exprs@); }
//@ loop 9
    invariant vx_it9@.len() < exprs@.len(),
        forall|i: int| 0 <= i < vx_it9@.len() ==> *(#[trigger] vx_it9@[i]) == exprs@[exprs@.len() - 1 - vx_it9@.len() + i],
@{!E01}        sem_do(exprs@.skip(exprs@.len() - 1 - vx_it9@.len()), (*env, *vx_w), gd) == gs,
    ensures vx_it9@.len() == 0,
    decreases vx_it9@.len(),
//@ loop_start 9
    proof { assert(exprs@.skip(exprs@.len() - 1 - vx_it9@.len()).skip(1) =~= exprs@.skip(exprs@.len() - vx_it9@.len())); }
//@ fn Expression::eval
@{!E01}    ensures (r, (*final(env), *final(vx_w))) == sem(*self, (*old(env), *old(vx_w)), 0),
