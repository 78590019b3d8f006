//@ include evalbody.vspec assumed=Expression::eval
//@ raw
} // verus!
impl std::fmt::Debug for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
verus! {
// ---------------------------------------------------------------- texts put together
pub open spec fn digit(n: nat) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
/// n in decimal digits
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n,
{
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}
pub uninterp spec fn dec_int(n: int) -> Seq<char>;
impl VxToString for usize {
    open spec fn shown(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxToString for i64 {
    open spec fn shown(&self) -> Seq<char> { dec_int(*self as int) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_urange(a: usize, b: usize) -> (r: VxIt<usize>)
    ensures r@.len() == (if b > a { b - a } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_usize_try_from(x: i64) -> (r: Result<usize, ()>) ensures r == (if x >= 0 { Ok::<usize, ()>(x as usize) } else { Err(()) }) { unimplemented!() }
pub broadcast proof fn lemma_dec_inj(a: nat, b: nat)
    ensures #![trigger dec(a), dec(b)] dec(a) == dec(b) ==> a == b,
    decreases a,
{
    if dec(a) == dec(b) {
        assert(dec(a).last() == dec(b).last());
        lemma_dec_len(a); lemma_dec_len(b);
        if a >= 10 {
            assert(dec(a).drop_last() =~= dec(a / 10));
            if b >= 10 { assert(dec(b).drop_last() =~= dec(b / 10)); lemma_dec_inj(a / 10, b / 10); } else { assert(dec(b).len() == 1); }
        } else if b >= 10 { assert(dec(a).len() == 1); }
    }
}
pub proof fn lemma_dec_len(a: nat)
    ensures dec(a).len() >= 1, a >= 10 ==> dec(a).len() >= 2, bl(dec(a)) <= 1 + a / 10,
    decreases a,
{
    reveal_with_fuel(bl, 2);
    if a >= 10 { lemma_dec_len(a / 10); assert(dec(a).drop_last() =~= dec(a / 10)); assert(bl(dec(a)) == bl(dec(a / 10)) + 1); assert(1 + 1 + (a / 10) / 10 <= 1 + a / 10) by (nonlinear_arith) requires a >= 10; }
    else { assert(dec(a).drop_last() =~= Seq::<char>::empty()); }
}
// ---------------------------------------------------------------- currying
/// the name of a curried function's parameter
pub open spec fn arg(i: int) -> Seq<char> { "arg"@ + dec(i as nat) }
pub proof fn lemma_arg(i: int, j: int)
    requires 0 <= i, 0 <= j,
    ensures arg(i) == arg(j) ==> i == j, arg(i) != "CWD"@,
{
    reveal_strlit("arg"); reveal_strlit("CWD");
    assert(arg(i).skip(3) =~= dec(i as nat));
    assert(arg(j).skip(3) =~= dec(j as nat));
    lemma_dec_inj(i as nat, j as nat);
    assert(arg(i)[0] == 'a');
    assert("CWD"@[0] == 'C');
}
/// such a name is a text
pub proof fn lemma_arg_text(i: int)
    requires 0 <= i <= usize::MAX,
    ensures mkstr(arg(i))@ == arg(i),
{
    broadcast use axm::ax_mkstr;
    lemma_dec_len(i as nat); lemma_bl_add("arg"@, dec(i as nat));
    reveal_strlit("arg"); reveal_with_fuel(bl, 4);
    assert(bl("arg"@) == 3) by { assert("arg"@.drop_last().drop_last().drop_last() =~= Seq::<char>::empty()); }
}
pub open spec fn nothing(e: Environment) -> bool { e.bindings@ == Map::<Seq<char>, Expression>::empty() && e.parent is None }
pub open spec fn void() -> Environment { Environment { bindings: mkmap(Map::empty()), parent: None } }
/// the parameters as operands, in order or in reverse
pub open spec fn params(n: int, rev: bool) -> Seq<Expression> { Seq::new(n as nat, |j: int| Expression::Symbol(mkstr(arg(if rev { n - 1 - j } else { j })))) }
/// `f` of n operands, when those before the i-th are given
pub open spec fn body(f: Expression, n: int, i: int, rev: bool) -> Expression
    decreases n - i,
{
    if i >= n { call(f, params(n, rev)) } else { Expression::Lambda(mkstr(arg(i)), Box::new(body(f, n, i + 1, rev)), void()) }
}
pub open spec fn curried(r: Res, t: St, f: Expression, n: int, rev: bool, s: St) -> bool {
    if n == 0 { r == Res::Ok(body(f, n, 0, rev)) && t == s } else { (r, t) == sem(body(f, n, 0, rev), s, 0) }
}
pub open spec fn nx(vs: Seq<Expression>) -> int { vs.len() as int + 1 }
/// what a curried function is after the operands vs, and before the others
pub open spec fn awaits(h: Expression, f: Expression, n: int, rev: bool, vs: Seq<Expression>) -> bool {
    &&& h is Lambda
    &&& h->Lambda_0@ == arg(vs.len() as int)
    &&& *h->Lambda_1 == body(f, n, nx(vs), rev)
    &&& knows(h->Lambda_2, vs)
}
pub open spec fn knows(e: Environment, vs: Seq<Expression>) -> bool { forall|j: int| 0 <= j < vs.len() ==> lookup(e, #[trigger] arg(j)) == Some(vs[j]) }
pub proof fn lemma_uses_body(f: Expression, n: int, i: int, rev: bool, j: int)
    requires 0 <= j < n, 0 <= i <= n, n <= isize::MAX,
    ensures uses(body(f, n, i, rev), arg(j)),
    decreases n - i,
{
    broadcast use {axm::ax_mkstr, axm::ax_str_back, axl::ax_mkvec, axl::ax_vec_back};
    if i >= n {
        let e = call(f, params(n, rev));
        let a = mkvec(params(n, rev));
        let k = if rev { n - 1 - j } else { j };
        assert(a@ == params(n, rev));
        lemma_arg_text(j);
        lemma_upto(e, a, n as nat, arg(j));
        assert(part(e, k) == a@[k]);
        assert(uses(part(e, k), arg(j)));
        assert(part_uses(e, k, arg(j)));
        assert(uses_upto(a, a@.len(), arg(j)));
    } else { lemma_uses_body(f, n, i + 1, rev, j); }
}
/// every name an environment knows, with its value
pub open spec fn known(e: Environment) -> Map<Seq<char>, Expression>
    decreases e,
{
    match e.parent { Some(p) => known(*p).union_prefer_right(e.bindings@), None => e.bindings@ }
}
pub proof fn lemma_known(e: Environment, k: Seq<char>)
    ensures lookup(e, k) == (if known(e).contains_key(k) { Some(known(e)[k]) } else { None }),
    decreases e,
{
    match e.parent { Some(p) => { lemma_known(*p, k); } None => {} }
}
/// the scope of a function always exists
pub proof fn lemma_captures(p: Seq<char>, b: Expression, c: Environment, o: Environment)
    ensures exists|m: BTreeMap<String, Expression>| captures(m@, p, b, c, o),
{
    broadcast use {axm::ax_mkmap, axm::ax_map_back};
    let base = c.bindings@.insert(p, Expression::None).insert("CWD"@, Expression::String(mkstr(cwd(o))));
    let t = known(o).dom().filter(|k: Seq<char>| taken(k, p, b, c, o));
    let m = base.union_prefer_right(known(o).restrict(t));
    assert forall|k: Seq<char>| #[trigger] t.contains(k) == taken(k, p, b, c, o) by { lemma_known(o, k); }
    assert forall|k: Seq<char>| m.contains_key(k) implies #[trigger] m[k] == (if taken(k, p, b, c, o) { lookup(o, k)->0 } else { base[k] }) by { lemma_known(o, k); assert(t.contains(k) == taken(k, p, b, c, o)); }
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) == (base.contains_key(k) || taken(k, p, b, c, o)) by { lemma_known(o, k); assert(t.contains(k) == taken(k, p, b, c, o)); }
    assert(captures(mkmap(m)@, p, b, c, o));
}
/// the function that waits for the next operand, evaluated where the ones before are known, or evaluated again
pub proof fn lemma_partial(f: Expression, n: int, rev: bool, vs: Seq<Expression>, c: Environment, s: St, d: nat)
    requires d <= limit(), vs.len() < n, n <= isize::MAX, knows(c, vs) || (c == void() && knows(s.0, vs)),
    ensures ({
        let (r, t) = sem(Expression::Lambda(mkstr(arg(vs.len() as int)), Box::new(body(f, n, nx(vs), rev)), c), s, d);
        t == s && r is Ok && awaits(r->Ok_0, f, n, rev, vs)
    }),
{
    broadcast use {axm::ax_mkstr, axm::ax_str_back, axm::ax_mkmap, axm::ax_map_back};
    let i = vs.len() as int;
    let b = body(f, n, i + 1, rev);
    let e = Expression::Lambda(mkstr(arg(i)), Box::new(b), c);
    lemma_sem(e, s, d);
    lemma_captures(arg(i), b, c, s.0);
    let h = captured(arg(i), b, c, s.0);
    lemma_arg_text(i);
    let m = choose|m: BTreeMap<String, Expression>| captures(m@, arg(i), b, c, s.0);
    assert forall|j: int| 0 <= j < i implies lookup(h, #[trigger] arg(j)) == Some(vs[j]) by {
        lemma_arg(j, i);
        lemma_uses_body(f, n, i + 1, rev, j);
        if knows(c, vs) {
            assert(lookup(c, arg(j)) == Some(vs[j]));
            assert(!taken(arg(j), arg(i), b, c, s.0));
            if c.bindings@.contains_key(arg(j)) { assert(m@.contains_key(arg(j))); assert(m@[arg(j)] == c.bindings@[arg(j)]); } else { assert(!m@.contains_key(arg(j))); }
        } else {
            assert(lookup(c, arg(j)) is None);
            assert(taken(arg(j), arg(i), b, c, s.0));
            assert(m@.contains_key(arg(j)));
        }
    }
}
pub open spec fn stepped(f0: Expression, f: Expression, n: int, rev: bool, vs: Seq<Expression>, a: Seq<Expression>, s: St, t1: St, v: Expression, d: nat, e: Environment, q: Res, u: St) -> bool {
    &&& knows(e, vs.push(v))
    &&& (q, u) == sem(body(f, n, nx(vs), rev), (e, t1.1), d + 1)
    &&& nx(vs) < n ==> q is Ok && awaits(q->Ok_0, f, n, rev, vs.push(v)) && u.1 == t1.1
    // the caller's bindings stay as evaluating the operand left them
    &&& sem(call(f0, a), s, d) == (if q is Ok && a.len() > 1 { sem(call(q->Ok_0, a.skip(1)), (t1.0, u.1), d + 1) } else { (q, (t1.0, u.1)) })
}
/// one operand more: the function waiting for the others, or the call itself
pub proof fn theorem_step(f0: Expression, f: Expression, n: int, rev: bool, vs: Seq<Expression>, a: Seq<Expression>, s: St, t: St, d: nat)
    requires d + 1 <= limit(), 0 < a.len() <= isize::MAX, vs.len() < n, n <= isize::MAX, sem(f0, s, d + 1).0 is Ok, awaits(sem(f0, s, d + 1).0->Ok_0, f, n, rev, vs), sem(f0, s, d + 1).1 == t,
    ensures ({
        let (v, t1) = sem(a[0], t, d + 1);
        match v {
            Err(x) => sem(call(f0, a), s, d) == (Res::Err(x), t1),
            Ok(v) => exists|e: Environment, q: Res, u: St| #[trigger] stepped(f0, f, n, rev, vs, a, s, t1, v, d, e, q, u),
        }
    }),
{
    broadcast use {axm::ax_mkstr, axm::ax_str_back, axm::ax_mkmap, axm::ax_map_back, axl::ax_mkvec, axl::ax_vec_back, axe::ax_vec_ext};
    let i = vs.len() as int;
    let g = sem(f0, s, d + 1).0->Ok_0;
    let e0 = call(f0, a);
    lemma_sem(e0, s, d);
    assert(mkvec(a)@ == a);
    let (r, t1) = sem(a[0], t, d + 1);
    if let Ok(v) = r {
        let c = g->Lambda_2;
        let e = def(at_dir(c, cwd(t.0)), arg(i), v);
        let ws = vs.push(v);
        assert forall|j: int| 0 <= j < ws.len() implies lookup(e, #[trigger] arg(j)) == Some(ws[j]) by {
            lemma_arg(j, i);
            assert(e.parent == c.parent);
            assert(e.bindings@ == c.bindings@.insert("CWD"@, Expression::String(mkstr(cwd(t.0)))).insert(arg(i), v));
            if j < i { assert(lookup(c, arg(j)) == Some(vs[j])); }
        }
        let (q, u) = sem(body(f, n, i + 1, rev), (e, t1.1), d + 1);
        if i + 1 < n { lemma_partial(f, n, rev, ws, void(), (e, t1.1), (d + 1) as nat); }
        assert(stepped(f0, f, n, rev, vs, a, s, t1, v, d, e, q, u));
    }
}
/// the operands evaluated one after the other, each a step deeper
pub open spec fn operands(a: Seq<Expression>, s: St, d: nat, vs: Seq<Expression>) -> (Result<Seq<Expression>, Error>, St)
    decreases a.len(),
{
    if a.len() == 0 { (Ok(vs), s) } else {
        let (r, t) = sem(a[0], s, d + 1);
        match r { Ok(v) => operands(a.skip(1), t, d + 1, vs.push(v)), Err(x) => (Err(x), t) }
    }
}
/// Given all its operands at once, a curried function evaluates them from the left, up to the first
/// error, and calls the function it was made of once, where each parameter has the value of its operand.
pub proof fn theorem_all(f0: Expression, f: Expression, n: int, rev: bool, vs: Seq<Expression>, a: Seq<Expression>, s: St, d: nat)
    requires d + n - vs.len() + 1 <= limit(), a.len() == n - vs.len(), a.len() > 0, n <= isize::MAX, sem(f0, s, d + 1).0 is Ok, awaits(sem(f0, s, d + 1).0->Ok_0, f, n, rev, vs), sem(f0, s, d + 1).1 == s,
    ensures match operands(a, s, d, vs) {
        (Err(x), t) => sem(call(f0, a), s, d) == (Res::Err(x), t),
        (Ok(ws), t) => exists|e: Environment| #![trigger knows(e, ws)] knows(e, ws) && ws.len() == n && ({
            let (q, u) = sem(call(f, params(n, rev)), (e, t.1), (d + a.len()) as nat);
            sem(call(f0, a), s, d) == (q, (t.0, u.1))
        }),
    },
    decreases a.len(),
{
    broadcast use {axm::ax_mkstr, axm::ax_str_back, axe::ax_string_ext};
    theorem_step(f0, f, n, rev, vs, a, s, s, d);
    let (r, t1) = sem(a[0], s, d + 1);
    if let Ok(v) = r {
        let ws = vs.push(v);
        let (e, q, u) = choose|e: Environment, q: Res, u: St| #[trigger] stepped(f0, f, n, rev, vs, a, s, t1, v, d, e, q, u);
        if a.len() > 1 {
            let h = q->Ok_0;
            assert((t1.0, u.1) == t1);
            // the function so far is evaluated again, where its next operand is
            lemma_partial(f, n, rev, ws, h->Lambda_2, t1, (d + 2) as nat);
            assert(h == Expression::Lambda(mkstr(arg(ws.len() as int)), Box::new(body(f, n, nx(ws), rev)), h->Lambda_2)) by { lemma_arg_text(ws.len() as int); assert(h->Lambda_0@ == mkstr(arg(ws.len() as int))@); }
            theorem_all(h, f, n, rev, ws, a.skip(1), t1, d + 1);
            assert(sem(call(f0, a), s, d) == sem(call(h, a.skip(1)), t1, d + 1));
            assert(operands(a, s, d, vs) == operands(a.skip(1), t1, d + 1, ws));
        } else {
            assert(a.skip(1) =~= Seq::<Expression>::empty());
            assert(operands(a.skip(1), t1, d + 1, ws) == (Ok::<Seq<Expression>, Error>(ws), t1));
            assert(operands(a, s, d, vs) == (Ok::<Seq<Expression>, Error>(ws), t1));
            let o = operands(a, s, d, vs);
            assert(o.0 is Ok && o.0->Ok_0 == ws && o.1 == t1);
            assert(exists|e: Environment| #![trigger knows(e, o.0->Ok_0)] knows(e, o.0->Ok_0) && o.0->Ok_0.len() == n && ({
                let (q, u) = sem(call(f, params(n, rev)), (e, o.1.1), (d + a.len()) as nat);
                sem(call(f0, a), s, d) == (q, (o.1.0, u.1))
            }));
        }
    }
}
/// a parameter, evaluated where the function is called, is the operand's value
pub proof fn theorem_operand(e: Environment, vs: Seq<Expression>, n: int, rev: bool, k: int, w: VxWorld, d: nat)
    requires knows(e, vs), vs.len() == n, 0 <= k < n, n <= isize::MAX, d <= limit(),
    ensures sem(params(n, rev)[k], (e, w), d) == (Res::Ok(vs[if rev { n - 1 - k } else { k }]), (e, w)),
{
    broadcast use {axm::ax_mkstr, axm::ax_str_back};
    let j = if rev { n - 1 - k } else { k };
    assert(lookup(e, arg(j)) == Some(vs[j]));
    lemma_arg_text(j);
    lemma_sem(params(n, rev)[k], (e, w), d);
}
/// what curry answers waits for all the operands
pub proof fn theorem_curried(f: Expression, n: int, rev: bool, s: St)
    requires 0 < n <= isize::MAX,
    ensures ({ let (r, t) = sem(body(f, n, 0, rev), s, 0); t == s && r is Ok && awaits(r->Ok_0, f, n, rev, Seq::empty()) }),
{
    broadcast use {axm::ax_mkstr, axm::ax_str_back};
    lemma_partial(f, n, rev, Seq::empty(), void(), s, 0);
}
pub proof fn lemma_void(e: Environment)
    requires nothing(e),
    ensures e == void(),
{
    broadcast use {axm::ax_mkmap, axm::ax_map_back, axe::ax_map_ext};
    assert(e.bindings@ =~= mkmap(Map::<Seq<char>, Expression>::empty())@);
}
} // verus!
verus! {
type R = Result<Expression, Error>;
//@ end
//@ default vclone streq world=eval_mut,eval,call,status,curry_env,reverse_curry_env,curry,reverse_curry,curry_builtin,apply_ ctx fmtshow fmtcat usizerange arith
//@ file src/env.rs
//@ fn Environment::new
    ensures nothing(r), r == void(),
//@ tail
    proof { lemma_void(vx_ret); }
//@ fn Environment::default@Default
    ensures r == void(),
//@ file src/binary/init/fn_module.rs
//@ fn curry_env loops=2
    ensures curried(r, (*final(env), *final(vx_w)), f, args as int, false, (*old(env), *old(vx_w))), args <= isize::MAX,
//@ entry
    broadcast use {axm::ax_mkstr, axm::ax_str_back, axl::ax_mkvec, axl::ax_vec_back, axe::ax_vec_ext, axe::ax_string_ext};
//@ loop 0
    invariant vx_it1@.len() + vx_out1@.len() == args, vx_out1@ =~= params(args as int, false).take(vx_out1@.len() as int),
        forall|j: int| 0 <= j < vx_it1@.len() ==> #[trigger] vx_it1@[j] == args - vx_it1@.len() + j,
    ensures vx_out1@ =~= params(args as int, false),
    decreases vx_it1@.len(),
//@ before_loop 1
    proof {
        assert(result->Apply_1@ =~= params(args as int, false));
        assert(mkvec(params(args as int, false))@ == result->Apply_1@);
        assert(result == body(f, args as int, args as int, false));
        axo::ax_list_len(result->Apply_1);
    }
//@ loop 1
    invariant vx_it2@.len() <= args, result == body(f, args as int, vx_it2@.len() as int, false), *env == *old(env), *vx_w == *old(vx_w),
        forall|j: int| 0 <= j < vx_it2@.len() ==> #[trigger] vx_it2@[j] == vx_it2@.len() - 1 - j,
    ensures result == body(f, args as int, 0, false),
    decreases vx_it2@.len(),
//@ fn reverse_curry_env loops=2
    ensures curried(r, (*final(env), *final(vx_w)), f, args as int, true, (*old(env), *old(vx_w))), args <= isize::MAX,
//@ entry
    broadcast use {axm::ax_mkstr, axm::ax_str_back, axl::ax_mkvec, axl::ax_vec_back, axe::ax_vec_ext, axe::ax_string_ext};
//@ loop 0
    invariant vx_it1@.len() + vx_out1@.len() == args, vx_out1@ =~= params(args as int, true).take(vx_out1@.len() as int),
        forall|j: int| 0 <= j < vx_it1@.len() ==> #[trigger] vx_it1@[j] == vx_it1@.len() - 1 - j,
    ensures vx_out1@ =~= params(args as int, true),
    decreases vx_it1@.len(),
//@ before_loop 1
    proof {
        assert(result->Apply_1@ =~= params(args as int, true));
        assert(mkvec(params(args as int, true))@ == result->Apply_1@);
        assert(result == body(f, args as int, args as int, true));
        axo::ax_list_len(result->Apply_1);
    }
//@ loop 1
    invariant vx_it2@.len() <= args, result == body(f, args as int, vx_it2@.len() as int, true), *env == *old(env), *vx_w == *old(vx_w),
        forall|j: int| 0 <= j < vx_it2@.len() ==> #[trigger] vx_it2@[j] == vx_it2@.len() - 1 - j,
    ensures result == body(f, args as int, 0, true),
    decreases vx_it2@.len(),
//@ fn curry
    ensures 0 < args <= isize::MAX ==> awaits(r, f, args as int, false, Seq::empty()), args == 0 ==> r == body(f, 0, 0, false),
//@ entry
    proof { if 0 < args <= isize::MAX { theorem_curried(f, args as int, false, (void(), *vx_w)); } }
//@ fn reverse_curry
    ensures 0 < args <= isize::MAX ==> awaits(r, f, args as int, true, Seq::empty()), args == 0 ==> r == body(f, 0, 0, true),
//@ entry
    proof { if 0 < args <= isize::MAX { theorem_curried(f, args as int, true, (void(), *vx_w)); } }
//@ fn curry_builtin
    ensures ({
        let s = (*old(env), *old(vx_w));
        let t = (*final(env), *final(vx_w));
        if args@.len() < 2 { r is Err && t == s } else {
            match sem(args@[0], s, 0) {
                (Err(x), t1) => (r, t) == (R::Err(x), t1),
                (Ok(f), t1) => match sem(args@[1], t1, 0) {
                    (Err(x), t2) => (r, t) == (R::Err(x), t2),
                    (Ok(Expression::Integer(n)), t2) => if n < 0 { r is Err && t == t2 } else { curried(r, t, f, n as int, false, t2) },
                    (Ok(_), t2) => (r, t) == (R::Ok(f), t2),
                },
            }
        }
    }),
//@ fn closure/apply name=apply_
    ensures ({
        let s = (*old($1), *old(vx_w));
        let t = (*final($1), *final(vx_w));
        if $0@.len() != 2 { r is Err && t == s } else {
            match sem($0@[0], s, 0) {
                (Err(x), t1) => (r, t) == (R::Err(x), t1),
                (Ok(f), t1) => match sem($0@[1], t1, 0) {
                    (Err(x), t2) => (r, t) == (R::Err(x), t2),
                    (Ok(Expression::List(l)), t2) => (r, t) == sem(Expression::Apply(Box::new(f), l), t2, 0),
                    (Ok(_), t2) => r is Err && t == t2,
                },
            }
        }
    }),
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
