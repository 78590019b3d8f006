//@ include lib.vspec
//@ include exprops.vspec
//@ default vclone ctx
//@ known Expression::builtin reverse_curry
//@ raw
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axe::ax_map_ext, axo::ax_list_len, axl::ax_mkvec, axl::ax_vec_back, axo::ax_strlen};
type R = Result<Expression, Error>;
/// the five arithmetic operators
pub enum Op { Add, Sub, Mul, Div, Rem }
pub open spec fn xop(o: Op, a: Expression, b: Expression) -> Expression {
    match o { Op::Add => xadd(a, b), Op::Sub => xsub(a, b), Op::Mul => xmul(a, b), Op::Div => xdiv(a, b), Op::Rem => xrem(a, b) }
}
/// combine from the left; Err(None): a step without value; Err(Some): an evaluation failed.
/// (The result so far is a value; this code evaluates it once more at every step.)
pub open spec fn combine(o: Op, acc: Expression, s: Seq<Expression>, e: Environment) -> (Result<Expression, Option<Error>>, Environment)
    decreases s.len(),
{
    if s.len() == 0 { (Ok(acc), e) } else {
        match evals(acc, e) {
            (Err(x), e1) => (Err(Some(x)), e1),
            (Ok(a), e1) => match evals(s[0], e1) {
                (Err(x), e2) => (Err(Some(x)), e2),
                (Ok(b), e2) => if xop(o, a, b) is None { (Err(None), e2) } else { combine(o, xop(o, a, b), s.skip(1), e2) },
            },
        }
    }
}
pub open spec fn agree(r: R, m: Result<Expression, Option<Error>>) -> bool {
    match m { Ok(v) => r == R::Ok(v), Err(Some(x)) => r == R::Err(x), Err(None) => r is Err }
}
/// all operands, in order
pub open spec fn all(acc: Seq<Expression>, s: Seq<Expression>, e: Environment) -> (Result<Seq<Expression>, Error>, Environment)
    decreases s.len(),
{
    if s.len() == 0 { (Ok(acc), e) } else {
        match evals(s[0], e) { (Ok(v), e1) => all(acc.push(v), s.skip(1), e1), (Err(x), e1) => (Err(x), e1) }
    }
}
pub open spec fn every(v: Seq<Expression>) -> bool { forall|i: int| 0 <= i < v.len() ==> truthy(#[trigger] v[i]) }
pub open spec fn some(v: Seq<Expression>) -> bool { exists|i: int| 0 <= i < v.len() && truthy(#[trigger] v[i]) }
/// two operands, in order
pub open spec fn two(a: Expression, b: Expression, e: Environment) -> (Result<(Expression, Expression), Error>, Environment) {
    match evals(a, e) {
        (Err(x), e1) => (Err(x), e1),
        (Ok(v), e1) => match evals(b, e1) { (Err(x), e2) => (Err(x), e2), (Ok(w), e2) => (Ok((v, w)), e2) },
    }
}
pub open spec fn rel(r: R, t: Result<(Expression, Expression), Error>, f: spec_fn(Expression, Expression) -> bool) -> bool {
    match t { Err(x) => r == R::Err(x), Ok((a, b)) => r == R::Ok(Expression::Boolean(f(a, b))) }
}
/// an index that names a place is used as written, any other operand is evaluated first
pub open spec fn indexed(v: Expression, s: Seq<Expression>, e: Environment) -> (R, Environment)
    decreases s.len(),
{
    if s.len() == 0 { (Ok(v), e) } else if s[0] is Integer || s[0] is Symbol { indexed(xindex(v, s[0]), s.skip(1), e) } else {
        match evals(s[0], e) { (Ok(i), e1) => indexed(xindex(v, i), s.skip(1), e1), (Err(x), e1) => (Err(x), e1) }
    }
}
// the partial application of + to one operand (bounded: the harness compares it)
impl Expression {
    #[verifier::external_body]
    pub fn builtin<A: VxToString, F, B: VxToString>(name: A, body: F, help: B) -> (r: Expression) { unimplemented!() }
}
#[verifier::external_body]
pub fn reverse_curry(f: Expression, args: usize) -> (r: Expression) { unimplemented!() }
} // verus!
verus! {
//@ end
//@ file src/expr.rs
//@ fn Expression::is_truthy
    ensures r == truthy(*self),
//@ file src/binary/init/mod.rs
//@ fn check_args_len
    ensures r is Ok <==> expected_len.within(args@.len() as usize),
//@ file src/binary/init/operator_module.rs
//@ fn add_builtin loops=1
    ensures args@.len() == 0 ==> r is Err && *final(env) == *old(env),
        args@.len() >= 2 ==> match evals(args@[0], *old(env)) {
            (Err(x), e1) => r == R::Err(x) && *final(env) == e1,
            (Ok(v), e1) => agree(r, combine(Op::Add, v, args@.skip(1), e1).0) && *final(env) == combine(Op::Add, v, args@.skip(1), e1).1,
        },
//@ before_loop 0
    let ghost goal = combine(Op::Add, result, args@.skip(1), *env);
//@ loop 0
    invariant vx_it1@.len() <= args@.len() - 1, forall|i: int| 0 <= i < vx_it1@.len() ==> *(#[trigger] vx_it1@[i]) == args@[args@.len() - vx_it1@.len() + i],
        combine(Op::Add, result, args@.skip(args@.len() - vx_it1@.len()), *env) == goal,
    ensures (Ok::<Expression, Option<Error>>(result), *env) == goal,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { let k = args@.len() - vx_it1@.len(); assert(args@.skip(k).skip(1) =~= args@.skip(k + 1)); assert(args@.skip(k)[0] == args@[k]); } }
//@ fn closure/- name=op_sub loops=1
    ensures $0@.len() == 0 ==> r is Err && *final($1) == *old($1),
        $0@.len() == 1 ==> match evals($0@[0], *old($1)) { (Ok(v), e1) => r == R::Ok(xneg(v)) && *final($1) == e1, (Err(x), e1) => r == R::Err(x) && *final($1) == e1 },
        $0@.len() >= 2 ==> match evals($0@[0], *old($1)) {
            (Err(x), e1) => r == R::Err(x) && *final($1) == e1,
            (Ok(v), e1) => agree(r, combine(Op::Sub, v, $0@.skip(1), e1).0) && *final($1) == combine(Op::Sub, v, $0@.skip(1), e1).1,
        },
//@ before_loop 0
    let ghost goal = combine(Op::Sub, result, $0@.skip(1), *$1);
//@ loop 0
    invariant vx_it1@.len() <= $0@.len() - 1, forall|i: int| 0 <= i < vx_it1@.len() ==> *(#[trigger] vx_it1@[i]) == $0@[$0@.len() - vx_it1@.len() + i],
        combine(Op::Sub, result, $0@.skip($0@.len() - vx_it1@.len()), *$1) == goal,
    ensures (Ok::<Expression, Option<Error>>(result), *$1) == goal,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { let k = $0@.len() - vx_it1@.len(); assert($0@.skip(k).skip(1) =~= $0@.skip(k + 1)); assert($0@.skip(k)[0] == $0@[k]); } }
//@ fn closure/* name=op_mul loops=1
    ensures $0@.len() == 0 ==> r is Err && *final($1) == *old($1),
        $0@.len() == 1 ==> (r, *final($1)) == evals($0@[0], *old($1)),
        $0@.len() >= 2 ==> match evals($0@[0], *old($1)) {
            (Err(x), e1) => r == R::Err(x) && *final($1) == e1,
            (Ok(v), e1) => agree(r, combine(Op::Mul, v, $0@.skip(1), e1).0) && *final($1) == combine(Op::Mul, v, $0@.skip(1), e1).1,
        },
//@ before_loop 0
    let ghost goal = combine(Op::Mul, result, $0@.skip(1), *$1);
//@ loop 0
    invariant vx_it1@.len() <= $0@.len() - 1, forall|i: int| 0 <= i < vx_it1@.len() ==> *(#[trigger] vx_it1@[i]) == $0@[$0@.len() - vx_it1@.len() + i],
        combine(Op::Mul, result, $0@.skip($0@.len() - vx_it1@.len()), *$1) == goal,
    ensures (Ok::<Expression, Option<Error>>(result), *$1) == goal,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { let k = $0@.len() - vx_it1@.len(); assert($0@.skip(k).skip(1) =~= $0@.skip(k + 1)); assert($0@.skip(k)[0] == $0@[k]); } }
//@ fn closure/// name=op_div loops=1
    ensures $0@.len() == 0 ==> r is Err && *final($1) == *old($1),
        $0@.len() == 1 ==> (r, *final($1)) == evals($0@[0], *old($1)),
        $0@.len() >= 2 ==> match evals($0@[0], *old($1)) {
            (Err(x), e1) => r == R::Err(x) && *final($1) == e1,
            (Ok(v), e1) => agree(r, combine(Op::Div, v, $0@.skip(1), e1).0) && *final($1) == combine(Op::Div, v, $0@.skip(1), e1).1,
        },
//@ before_loop 0
    let ghost goal = combine(Op::Div, result, $0@.skip(1), *$1);
//@ loop 0
    invariant vx_it1@.len() <= $0@.len() - 1, forall|i: int| 0 <= i < vx_it1@.len() ==> *(#[trigger] vx_it1@[i]) == $0@[$0@.len() - vx_it1@.len() + i],
        combine(Op::Div, result, $0@.skip($0@.len() - vx_it1@.len()), *$1) == goal,
    ensures (Ok::<Expression, Option<Error>>(result), *$1) == goal,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { let k = $0@.len() - vx_it1@.len(); assert($0@.skip(k).skip(1) =~= $0@.skip(k + 1)); assert($0@.skip(k)[0] == $0@[k]); } }
//@ fn closure/% name=op_rem loops=1
    ensures $0@.len() == 0 ==> r is Err && *final($1) == *old($1),
        $0@.len() == 1 ==> (r, *final($1)) == evals($0@[0], *old($1)),
        $0@.len() >= 2 ==> match evals($0@[0], *old($1)) {
            (Err(x), e1) => r == R::Err(x) && *final($1) == e1,
            (Ok(v), e1) => agree(r, combine(Op::Rem, v, $0@.skip(1), e1).0) && *final($1) == combine(Op::Rem, v, $0@.skip(1), e1).1,
        },
//@ before_loop 0
    let ghost goal = combine(Op::Rem, result, $0@.skip(1), *$1);
//@ loop 0
    invariant vx_it1@.len() <= $0@.len() - 1, forall|i: int| 0 <= i < vx_it1@.len() ==> *(#[trigger] vx_it1@[i]) == $0@[$0@.len() - vx_it1@.len() + i],
        combine(Op::Rem, result, $0@.skip($0@.len() - vx_it1@.len()), *$1) == goal,
    ensures (Ok::<Expression, Option<Error>>(result), *$1) == goal,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { let k = $0@.len() - vx_it1@.len(); assert($0@.skip(k).skip(1) =~= $0@.skip(k + 1)); assert($0@.skip(k)[0] == $0@[k]); } }
//@ fn closure/&& name=op_and loops=2
    ensures match all(Seq::empty(), $0@, *old($1)) {
        (Err(x), e1) => r == R::Err(x) && *final($1) == e1,
        (Ok(v), e1) => r == R::Ok(Expression::Boolean(every(v))) && *final($1) == e1,
    },
//@ before_loop 0
    let ghost goal = all(Seq::empty(), $0@, *$1);
//@ loop 0
    invariant all(vx_out1@, vx_it1@, *$1) == goal, vx_er1 is None,
    ensures match vx_er1 { None => goal == (Ok::<Seq<Expression>, Error>(vx_out1@), *$1), Some(x) => goal == (Err::<Seq<Expression>, Error>(x), *$1) },
    decreases vx_it1@.len(),
//@ loop 1
    invariant vx_it2@.len() <= vx_t1@.len(), forall|i: int| 0 <= i < vx_it2@.len() ==> *(#[trigger] vx_it2@[i]) == vx_t1@[vx_t1@.len() - vx_it2@.len() + i],
        vx_out2 == true, forall|i: int| 0 <= i < vx_t1@.len() - vx_it2@.len() ==> truthy(#[trigger] vx_t1@[i]),
    ensures vx_out2 == every(vx_t1@),
    decreases vx_it2@.len(),
//@ fn closure/|| name=op_or loops=2
    ensures match all(Seq::empty(), $0@, *old($1)) {
        (Err(x), e1) => r == R::Err(x) && *final($1) == e1,
        (Ok(v), e1) => r == R::Ok(Expression::Boolean(some(v))) && *final($1) == e1,
    },
//@ before_loop 0
    let ghost goal = all(Seq::empty(), $0@, *$1);
//@ loop 0
    invariant all(vx_out1@, vx_it1@, *$1) == goal, vx_er1 is None,
    ensures match vx_er1 { None => goal == (Ok::<Seq<Expression>, Error>(vx_out1@), *$1), Some(x) => goal == (Err::<Seq<Expression>, Error>(x), *$1) },
    decreases vx_it1@.len(),
//@ loop 1
    invariant vx_it2@.len() <= vx_t1@.len(), forall|i: int| 0 <= i < vx_it2@.len() ==> *(#[trigger] vx_it2@[i]) == vx_t1@[vx_t1@.len() - vx_it2@.len() + i],
        vx_out2 == false, forall|i: int| 0 <= i < vx_t1@.len() - vx_it2@.len() ==> !truthy(#[trigger] vx_t1@[i]),
    ensures vx_out2 == some(vx_t1@),
    decreases vx_it2@.len(),
//@ fn closure/! name=op_not loops=2
    ensures match all(Seq::empty(), $0@, *old($1)) {
        (Err(x), e1) => r == R::Err(x) && *final($1) == e1,
        (Ok(v), e1) => r == R::Ok(Expression::Boolean(!some(v))) && *final($1) == e1,
    },
//@ before_loop 0
    let ghost goal = all(Seq::empty(), $0@, *$1);
//@ loop 0
    invariant all(vx_out1@, vx_it1@, *$1) == goal, vx_er1 is None,
    ensures match vx_er1 { None => goal == (Ok::<Seq<Expression>, Error>(vx_out1@), *$1), Some(x) => goal == (Err::<Seq<Expression>, Error>(x), *$1) },
    decreases vx_it1@.len(),
//@ loop 1
    invariant vx_it2@.len() <= vx_t1@.len(), forall|i: int| 0 <= i < vx_it2@.len() ==> *(#[trigger] vx_it2@[i]) == vx_t1@[vx_t1@.len() - vx_it2@.len() + i],
        vx_out2 == true, forall|i: int| 0 <= i < vx_t1@.len() - vx_it2@.len() ==> !truthy(#[trigger] vx_t1@[i]),
    ensures vx_out2 == !some(vx_t1@),
    decreases vx_it2@.len(),
//@ fn closure/== name=op_eq
    ensures $0@.len() < 2 ==> r is Err && *final($1) == *old($1),
        $0@.len() >= 2 ==> rel(r, two($0@[0], $0@[1], *old($1)).0, |a: Expression, b: Expression| xeq(a, b)) && *final($1) == two($0@[0], $0@[1], *old($1)).1,
//@ fn closure/!= name=op_ne
    ensures $0@.len() < 2 ==> r is Err && *final($1) == *old($1),
        $0@.len() >= 2 ==> rel(r, two($0@[0], $0@[1], *old($1)).0, |a: Expression, b: Expression| !xeq(a, b)) && *final($1) == two($0@[0], $0@[1], *old($1)).1,
//@ fn closure/< name=op_lt
    ensures $0@.len() < 2 ==> r is Err && *final($1) == *old($1),
        $0@.len() >= 2 ==> rel(r, two($0@[0], $0@[1], *old($1)).0, |a: Expression, b: Expression| xcmp(a, b) == Some(Ordering::Less)) && *final($1) == two($0@[0], $0@[1], *old($1)).1,
//@ fn closure/<= name=op_le
    ensures $0@.len() < 2 ==> r is Err && *final($1) == *old($1),
        $0@.len() >= 2 ==> rel(r, two($0@[0], $0@[1], *old($1)).0, |a: Expression, b: Expression| xcmp(a, b) == Some(Ordering::Less) || xcmp(a, b) == Some(Ordering::Equal)) && *final($1) == two($0@[0], $0@[1], *old($1)).1,
//@ fn closure/> name=op_gt
    ensures $0@.len() < 2 ==> r is Err && *final($1) == *old($1),
        $0@.len() >= 2 ==> rel(r, two($0@[0], $0@[1], *old($1)).0, |a: Expression, b: Expression| xcmp(a, b) == Some(Ordering::Greater)) && *final($1) == two($0@[0], $0@[1], *old($1)).1,
//@ fn closure/>= name=op_ge
    ensures $0@.len() < 2 ==> r is Err && *final($1) == *old($1),
        $0@.len() >= 2 ==> rel(r, two($0@[0], $0@[1], *old($1)).0, |a: Expression, b: Expression| xcmp(a, b) == Some(Ordering::Greater) || xcmp(a, b) == Some(Ordering::Equal)) && *final($1) == two($0@[0], $0@[1], *old($1)).1,
//@ fn closure/@ name=op_index loops=1
    ensures $0@.len() == 0 ==> r is Err && *final($1) == *old($1),
        $0@.len() >= 1 ==> match evals($0@[0], *old($1)) {
            (Err(x), e1) => r == R::Err(x) && *final($1) == e1,
            (Ok(v), e1) => (r, *final($1)) == indexed(v, $0@.skip(1), e1),
        },
//@ before_loop 0
    let ghost goal = indexed(val, $0@.skip(1), *$1);
//@ loop 0
    invariant vx_it1@.len() <= $0@.len() - 1, forall|i: int| 0 <= i < vx_it1@.len() ==> *(#[trigger] vx_it1@[i]) == $0@[$0@.len() - vx_it1@.len() + i],
        indexed(val, $0@.skip($0@.len() - vx_it1@.len()), *$1) == goal,
    ensures (R::Ok(val), *$1) == goal,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { let k = $0@.len() - vx_it1@.len(); assert($0@.skip(k).skip(1) =~= $0@.skip(k + 1)); assert($0@.skip(k)[0] == $0@[k]); } }
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
