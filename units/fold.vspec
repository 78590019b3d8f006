//@ include lib.vspec
//@ default vclone ctx
//@ raw
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axo::ax_list_len, axl::ax_mkvec, axl::ax_vec_back, axo::ax_strlen};
type R = Result<Expression, Error>;
pub open spec fn lst(r: R, s: Seq<Expression>) -> bool { r is Ok && r->Ok_0 is List && r->Ok_0->List_0@ =~= s }
/// combine from the left: f(f(acc, s0), s1) ...; the first error stops
pub open spec fn lfold(f: Expression, acc: Expression, s: Seq<Expression>, e: Environment) -> (R, Environment)
    decreases s.len(),
{
    if s.len() == 0 { (Ok(acc), e) } else {
        match evals(call(f, seq![acc, s[0]]), e) {
            (Ok(a), e2) => lfold(f, a, s.skip(1), e2),
            (Err(x), e2) => (Err(x), e2),
        }
    }
}
/// combine from the right: f(s0, f(s1, ... acc)); s is given back to front
pub open spec fn rfold(f: Expression, acc: Expression, s: Seq<Expression>, e: Environment) -> (R, Environment)
    decreases s.len(),
{
    if s.len() == 0 { (Ok(acc), e) } else {
        match evals(call(f, seq![s[0], acc]), e) {
            (Ok(a), e2) => rfold(f, a, s.skip(1), e2),
            (Err(x), e2) => (Err(x), e2),
        }
    }
}
/// f of every element in order, results in order
pub open spec fn mapped(f: Expression, acc: Seq<Expression>, s: Seq<Expression>, e: Environment) -> (Result<Seq<Expression>, Error>, Environment)
    decreases s.len(),
{
    if s.len() == 0 { (Ok(acc), e) } else {
        match evals(call(f, seq![s[0]]), e) {
            (Ok(a), e2) => mapped(f, acc.push(a), s.skip(1), e2),
            (Err(x), e2) => (Err(x), e2),
        }
    }
}
/// the elements whose test is truthy, in order
pub open spec fn filtered(f: Expression, acc: Seq<Expression>, s: Seq<Expression>, e: Environment) -> (Result<Seq<Expression>, Error>, Environment)
    decreases s.len(),
{
    if s.len() == 0 { (Ok(acc), e) } else {
        match evals(call(f, seq![s[0]]), e) {
            (Ok(a), e2) => filtered(f, if truthy(a) { acc.push(s[0]) } else { acc }, s.skip(1), e2),
            (Err(x), e2) => (Err(x), e2),
        }
    }
}
/// a result that is a list of the given elements, or the given error
pub open spec fn agree(r: R, m: Result<Seq<Expression>, Error>) -> bool {
    match m { Ok(s) => lst(r, s), Err(e) => r == R::Err(e) }
}
} // verus!
verus! {
//@ end
//@ file src/expr.rs
//@ fn Expression::is_truthy
    ensures r == truthy(*self),
//@ file src/binary/init/list_module.rs
//@ fn foldl loops=1
    ensures args@.len() != 3 ==> r is Err && *final(env) == *old(env),
        args@.len() == 3 ==> match evals(args@[0], *old(env)) {
            (Err(x), e1) => r == R::Err(x) && *final(env) == e1,
            (Ok(f), e1) => match evals(args@[1], e1) {
                (Err(x), e2) => r == R::Err(x) && *final(env) == e2,
                (Ok(a), e2) => match evals(args@[2], e2) {
                    (Err(x), e3) => r == R::Err(x) && *final(env) == e3,
                    (Ok(Expression::List(l)), e3) => (r, *final(env)) == lfold(f, a, l@, e3),
                    (Ok(_), e3) => r is Err && *final(env) == e3,
                }
            }
        },
//@ before_loop 0
    let ghost goal = lfold(f, acc, list@, *env);
//@ loop 0
    invariant lfold(f, acc, vx_it1@, *env) == goal,
    ensures (R::Ok(acc), *env) == goal,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { let s = seq![acc, vx_it1@[0]]; assert forall|v: Vec<Expression>| #[trigger] v@ =~= s implies v == mkvec(s) by { assert(v@ == s); assert(mkvec(s)@ == s); } } }
//@ fn foldr loops=1
    ensures args@.len() != 3 ==> r is Err && *final(env) == *old(env),
        args@.len() == 3 ==> match evals(args@[0], *old(env)) {
            (Err(x), e1) => r == R::Err(x) && *final(env) == e1,
            (Ok(f), e1) => match evals(args@[1], e1) {
                (Err(x), e2) => r == R::Err(x) && *final(env) == e2,
                (Ok(a), e2) => match evals(args@[2], e2) {
                    (Err(x), e3) => r == R::Err(x) && *final(env) == e3,
                    (Ok(Expression::List(l)), e3) => (r, *final(env)) == rfold(f, a, l@.reverse(), e3),
                    (Ok(_), e3) => r is Err && *final(env) == e3,
                }
            }
        },
//@ before_loop 0
    let ghost goal = rfold(f, acc, list@.reverse(), *env);
//@ loop 0
    invariant rfold(f, acc, vx_it1@, *env) == goal,
    ensures (R::Ok(acc), *env) == goal,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { let s = seq![vx_it1@[0], acc]; assert forall|v: Vec<Expression>| #[trigger] v@ =~= s implies v == mkvec(s) by { assert(v@ == s); assert(mkvec(s)@ == s); } } }
//@ file src/binary/init/fn_module.rs
//@ fn conditional
    ensures args@.len() != 3 ==> r is Err && *final(env) == *old(env),
        args@.len() == 3 ==> match evals(args@[0], *old(env)) {
            (Err(x), e1) => r == R::Err(x) && *final(env) == e1,
            (Ok(c), e1) => (r, *final(env)) == evals(if truthy(c) { args@[1] } else { args@[2] }, e1),
        },
//@ fn map loops=1
    ensures args@.len() == 0 || args@.len() > 2 ==> r is Err && *final(env) == *old(env),
        args@.len() == 2 ==> match evals(args@[1], *old(env)) {
            (Err(x), e1) => r == R::Err(x) && *final(env) == e1,
            (Ok(Expression::List(l)), e1) => match evals(args@[0], e1) {
                (Err(x), e2) => r == R::Err(x) && *final(env) == e2,
                (Ok(f), e2) => agree(r, mapped(f, Seq::empty(), l@, e2).0) && *final(env) == mapped(f, Seq::empty(), l@, e2).1,
            }
            (Ok(_), e1) => r is Err && *final(env) == e1,
        },
//@ before_loop 0
    let ghost goal = mapped(f, Seq::empty(), list@, *env);
//@ loop 0
    invariant mapped(f, result@, vx_it1@, *env) == goal,
    ensures goal.0 == Ok::<Seq<Expression>, Error>(result@), *env == goal.1,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { let s = seq![vx_it1@[0]]; assert forall|v: Vec<Expression>| #[trigger] v@ =~= s implies v == mkvec(s) by { assert(v@ == s); assert(mkvec(s)@ == s); } } }
//@ fn filter loops=1
    ensures args@.len() == 0 || args@.len() > 2 ==> r is Err && *final(env) == *old(env),
        args@.len() == 2 ==> match evals(args@[1], *old(env)) {
            (Err(x), e1) => r == R::Err(x) && *final(env) == e1,
            (Ok(Expression::List(l)), e1) => match evals(args@[0], e1) {
                (Err(x), e2) => r == R::Err(x) && *final(env) == e2,
                (Ok(f), e2) => agree(r, filtered(f, Seq::empty(), l@, e2).0) && *final(env) == filtered(f, Seq::empty(), l@, e2).1,
            }
            (Ok(_), e1) => r is Err && *final(env) == e1,
        },
//@ before_loop 0
    let ghost goal = filtered(f, Seq::empty(), list@, *env);
//@ loop 0
    invariant filtered(f, result@, vx_it1@, *env) == goal,
    ensures goal.0 == Ok::<Seq<Expression>, Error>(result@), *env == goal.1,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { let s = seq![vx_it1@[0]]; assert forall|v: Vec<Expression>| #[trigger] v@ =~= s implies v == mkvec(s) by { assert(v@ == s); assert(mkvec(s)@ == s); } } }
//@ fn reduce loops=1
    ensures args@.len() == 0 || args@.len() > 3 ==> r is Err && *final(env) == *old(env),
        args@.len() == 3 ==> match evals(args@[2], *old(env)) {
            (Err(x), e1) => r == R::Err(x) && *final(env) == e1,
            (Ok(Expression::List(l)), e1) => match evals(args@[0], e1) {
                (Err(x), e2) => r == R::Err(x) && *final(env) == e2,
                (Ok(f), e2) => match evals(args@[1], e2) {
                    (Err(x), e3) => r == R::Err(x) && *final(env) == e3,
                    (Ok(a), e3) => (r, *final(env)) == lfold(f, a, l@, e3),
                }
            }
            (Ok(_), e1) => r is Err && *final(env) == e1,
        },
//@ before_loop 0
    let ghost goal = lfold(f, acc, list@, *env);
//@ loop 0
    invariant lfold(f, acc, vx_it1@, *env) == goal,
    ensures (R::Ok(acc), *env) == goal,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { let s = seq![acc, vx_it1@[0]]; assert forall|v: Vec<Expression>| #[trigger] v@ =~= s implies v == mkvec(s) by { assert(v@ == s); assert(mkvec(s)@ == s); } } }
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
