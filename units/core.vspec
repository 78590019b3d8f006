//@ include strpre.vspec
//@ raw
} // verus!
} // u
//@ end
//@ include digit.vspec
//@ include numtext.vspec
//@ raw
pub mod w {
use super::*;
use super::u::*;
use super::cls::*;
type R = Result<Expression, Error>;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axo::ax_list_len, axo::ax_texts_len, ax::ax_string_len, axl::ax_mkvec, axl::ax_vec_back, axm::ax_mkstr, axm::ax_str_back};
pub open spec fn strings(s: Seq<String>) -> Seq<Expression> { s.map_values(|x: String| Expression::String(x)) }
impl VxInto<Expression> for Vec<String> {
    open spec fn conv(self) -> Expression { Expression::List(mkvec(strings(self@))) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Expression) { unimplemented!() }
}
impl VxInto<Expression> for BTreeMap<String, Expression> {
    open spec fn conv(self) -> Expression { Expression::Map(self) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Expression) { unimplemented!() }
}
impl VxParse for String {
    #[verifier::external_body]
    fn vx_parse<T: VxFromText>(&self) -> (r: Result<T, VxParseError>) { unimplemented!() }
}
pub trait VxInsertStr { fn vx_insert_str<A: VxStr + ?Sized>(&mut self, i: usize, a: &A)
        requires boundary(old(self).t2(), i as nat); spec fn t2(&self) -> Seq<char>; }
impl VxInsertStr for String {
    open spec fn t2(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_insert_str<A: VxStr + ?Sized>(&mut self, i: usize, a: &A)
        ensures final(self)@ == put_in(old(self)@, cix(old(self)@, i as nat), a.txt()),
    { unimplemented!() }
}
/// s with t put before the character i
pub open spec fn put_in(s: Seq<char>, i: int, t: Seq<char>) -> Seq<char> { s.take(i) + t + s.skip(i) }
/// one operand at least, the first evaluated, the result by its value
pub open spec fn of_first(r: R, a: Seq<Expression>, e: Environment, want: spec_fn(Expression, R) -> bool) -> bool {
    if a.len() == 0 { r is Err } else { match ev(a[0], e) { Err(x) => r == R::Err(x), Ok(v) => want(v, r) } }
}
/// what inserting x at k in v answers
pub open spec fn put(v: Expression, k: Expression, x: Expression, r: R) -> bool {
    match (v, k) {
        (Expression::Map(m), Expression::String(k)) => r is Ok && r->Ok_0 is Map && r->Ok_0->Map_0@ =~= m@.insert(k@, x),
        (Expression::List(l), Expression::Integer(i)) => if 0 <= i <= l@.len() { r is Ok && r->Ok_0 is List && r->Ok_0->List_0@ =~= l@.insert(i as int, x) } else { r is Err },
        (Expression::String(s), Expression::Integer(i)) => if 0 <= i && boundary(s@, i as nat) { r is Ok && is_text(r->Ok_0, put_in(s@, cix(s@, i as nat), display(x))) } else { r is Err },
        _ => r is Err,
    }
}
pub open spec fn inserted(m: Map<Seq<char>, Expression>, s: Seq<(String, Expression)>) -> Map<Seq<char>, Expression>
    decreases s.len(),
{ if s.len() == 0 { m } else { inserted(m.insert(s[0].0@, s[0].1), s.skip(1)) } }
impl VxCollect<(String, Expression)> for BTreeMap<String, Expression> {
    open spec fn collected(&self, s: Seq<(String, Expression)>) -> bool { self@ == inserted(Map::empty(), s) }
}
pub open spec fn has_key(s: Seq<(String, Expression)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k }
pub open spec fn distinct(s: Seq<(String, Expression)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@ }
pub proof fn lemma_irrefl(a: Seq<char>)
    ensures !text_lt(a, a),
    decreases a.len(),
{ if a.len() > 0 { lemma_irrefl(a.skip(1)); } }
pub proof fn lemma_inserted(m: Map<Seq<char>, Expression>, s: Seq<(String, Expression)>)
    requires distinct(s),
    ensures
        forall|k: Seq<char>| #[trigger] inserted(m, s).contains_key(k) <==> m.contains_key(k) || has_key(s, k),
        forall|k: Seq<char>| m.contains_key(k) && !(has_key(s, k)) ==> #[trigger] inserted(m, s)[k] == m[k],
        forall|i: int| 0 <= i < s.len() ==> inserted(m, s)[(#[trigger] s[i]).0@] == s[i].1,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.skip(1);
        let n = m.insert(s[0].0@, s[0].1);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0@ != (#[trigger] t[j]).0@ by { assert(s[i + 1].0@ != s[j + 1].0@); }
        lemma_inserted(n, t);
        assert forall|k: Seq<char>| has_key(s, k) <==> s[0].0@ == k || #[trigger] has_key(t, k) by {
            if has_key(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k; if i > 0 { assert(t[i - 1].0@ == k); } }
            if has_key(t, k) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == k; assert(s[i + 1].0@ == k); }
        }
        assert(!(has_key(t, s[0].0@))) by { if has_key(t, s[0].0@) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == s[0].0@; assert(s[i + 1].0@ != s[0].0@); } }
        assert forall|i: int| 0 <= i < s.len() implies inserted(m, s)[(#[trigger] s[i]).0@] == s[i].1 by { if i > 0 { assert(t[i - 1] == s[i]); } else { assert(n.contains_key(s[0].0@)); } }
    }
}
/// a map collected from its own entries is the map
pub proof fn lemma_entries(m: BTreeMap<String, Expression>)
    ensures inserted(Map::empty(), m.ents()) =~= m@,
{
    axe::ax_map_ordered(m);
    let s = m.ents();
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@ by { lemma_irrefl(s[i].0@); }
    lemma_inserted(Map::empty(), s);
    assert forall|k: Seq<char>| m@.contains_key(k) <==> #[trigger] inserted(Map::empty(), s).contains_key(k) by {
        axe::ax_map_view(m, k);
        if has_key(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k; axe::ax_map_ents(m, i); }
    }
    assert forall|k: Seq<char>| m@.contains_key(k) implies m@[k] == #[trigger] inserted(Map::empty(), s)[k] by {
        axe::ax_map_view(m, k);
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k; axe::ax_map_ents(m, i); assert(s[i].0@ == k);
    }
}
pub proof fn lemma_sizes()
    ensures forall|s: String| #[trigger] s@.len() <= isize::MAX,
        forall|s: String, k: nat| #[trigger] boundary(s@, k) ==> k <= isize::MAX,
{
    assert forall|s: String| #[trigger] s@.len() <= isize::MAX by { lemma_bl_pos(s@); ax::ax_string_len(&s); }
    assert forall|s: String, k: nat| #[trigger] boundary(s@, k) implies k <= isize::MAX by {
        let j = cix(s@, k); assert(at(s@, k, j)); lemma_bl_take(s@, j, j); ax::ax_string_len(&s);
    }
}
pub open spec fn after_two(a: Seq<Expression>, e: Environment) -> Environment { af(a[1], af(a[0], e)) }
} // verus!
verus! {
//@ end
//@ default vclone ctx arith strslice
//@ file src/env.rs
//@ fn Environment::undefine
    ensures final(self).bindings@ == old(self).bindings@.remove(name@), final(self).parent == old(self).parent,
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ fn check_args_len
    ensures r is Ok <==> expected_len.within(args@.len() as usize),
//@ fn closure/to name=c_to loops=1
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match evals($0@[0], *old($1)) {
            (Err(x), _) => r == R::Err(x),
            (Ok(a), e1) => match (a, ev($0@[1], e1)) {
                (_, Err(x)) => r == R::Err(x),
                (Expression::Integer(a), Ok(Expression::Integer(b))) => r is Ok && r->Ok_0 is List && {
                    let l = r->Ok_0->List_0@;
                    &&& l.len() == (if b > a { b - a } else { 0 })
                    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == Expression::Integer((a + i) as i64)
                },
                _ => r is Err,
            },
        },
//@ loop 0
    invariant
        vx_out1@.len() + vx_it1@.len() == (if n > m { n - m } else { 0 }),
        forall|i: int| 0 <= i < vx_it1@.len() ==> #[trigger] vx_it1@[i] == m + vx_out1@.len() + i,
        forall|i: int| 0 <= i < vx_out1@.len() ==> #[trigger] vx_out1@[i] == Expression::Integer((m + i) as i64),
    decreases vx_it1@.len(),
//@ fn closure/str name=c_str
    ensures of_first(r, $0@, *old($1), |v: Expression, q: R| q is Ok && is_text(q->Ok_0, display(v))),
//@ fn closure/int name=c_int
    ensures of_first(r, $0@, *old($1), |v: Expression, q: R| match v {
        Expression::Integer(i) => q == R::Ok(v),
        Expression::Float(f) => q == R::Ok(Expression::Integer(f2i(f))),
        Expression::String(s) => match written(s@) { Some(n) => if fits(n) { q == R::Ok(Expression::Integer(n as i64)) } else { q is Err }, None => q is Err },
        _ => q is Err,
    }),
//@ fn closure/insert name=c_insert
    ensures $0@.len() != 3 ==> r is Err,
        $0@.len() == 3 ==> match evals($0@[0], *old($1)) {
            (Err(x), _) => r == R::Err(x),
            (Ok(v), e1) => match evals($0@[1], e1) {
                (Err(x), _) => r == R::Err(x),
                (Ok(k), e2) => match ev($0@[2], e2) { Err(x) => r == R::Err(x), Ok(x) => put(v, k, x, r) },
            },
        },
//@ entry
    proof { lemma_sizes(); }
//@ fn closure/keys name=c_keys
    ensures of_first(r, $0@, *old($1), |v: Expression, q: R| match v {
        Expression::Map(m) => q is Ok && q->Ok_0 is List && q->Ok_0->List_0@ =~= strings(m.ents().map_values(|e: (String, Expression)| e.0)),
        _ => q is Err,
    }),
//@ fn closure/vals name=c_vals
    ensures of_first(r, $0@, *old($1), |v: Expression, q: R| match v {
        Expression::Map(m) => q is Ok && q->Ok_0 is List && q->Ok_0->List_0@ =~= m.ents().map_values(|e: (String, Expression)| e.1),
        _ => q is Err,
    }),
//@ fn closure/vars name=c_vars
    ensures r is Ok && r->Ok_0 is Map && r->Ok_0->Map_0 == old($1).bindings, *final($1) == *old($1),
//@ fn closure/len name=c_len
    ensures of_first(r, $0@, *old($1), |v: Expression, q: R| match v {
        Expression::Map(m) => q == R::Ok(Expression::Integer(m.ents().len() as i64)) || m.ents().len() > i64::MAX,
        Expression::List(l) => q == R::Ok(Expression::Integer(l@.len() as i64)),
        Expression::String(s) | Expression::Symbol(s) => q == R::Ok(Expression::Integer(s@.len() as i64)),
        _ => q is Err,
    }),
//@ entry
    proof { lemma_sizes(); }
//@ fn closure/lines name=c_lines loops=1
    ensures of_first(r, $0@, *old($1), |v: Expression, q: R| match v { Expression::String(s) => q is Ok && is_texts(q->Ok_0, lines_of(s@)), _ => q is Err }),
//@ before_loop 0
    let ghost gt = texts(vx_it1@);
    proof { assert(texts(vx_it1@) =~= gt); }
//@ loop 0
    invariant left_of(vx_it1@, gt, vx_out1@.len() as int), done(vx_out1@, gt),
    ensures done(vx_out1@, gt), vx_out1@.len() == gt.len(),
    decreases vx_it1@.len(),
//@ fn closure/eval name=c_eval
    ensures $0@.len() == 0 ==> r is Err && *final($1) == *old($1),
        $0@.len() > 0 ==> *final($1) == af($0@[0], *old($1)) && match ev($0@[0], *old($1)) { Err(x) => r == R::Err(x), Ok(v) => r == ev(v, *old($1)) || r == ev(v, af($0@[0], *old($1))) },
//@ fn closure/exec name=c_exec
    ensures $0@.len() == 0 ==> r is Err && *final($1) == *old($1),
        $0@.len() > 0 ==> match evals($0@[0], *old($1)) { (Err(x), e1) => r == R::Err(x) && *final($1) == e1, (Ok(v), e1) => (r, *final($1)) == evals(v, e1) },
//@ fn closure/unbind name=c_unbind
    ensures match (if $0@.len() == 1 { text_of($0@[0]) } else { None }) {
        Some(k) => r == R::Ok(Expression::None) && final($1).bindings@ == old($1).bindings@.remove(k) && final($1).parent == old($1).parent,
        None => r is Err && *final($1) == *old($1),
    },
//@ fn closure/report name=c_report
    ensures of_first(r, $0@, *old($1), |v: Expression, q: R| q == R::Ok(Expression::None)),
//@ file src/expr.rs
//@ fn Expression::from@From<Int> name=from_int
    ensures r == Expression::Integer($0),
//@ fn Expression::from@From<f64> name=from_float
    ensures r == Expression::Float($0),
//@ fn Expression::from@From<bool> name=from_bool
    ensures r == Expression::Boolean($0),
//@ fn Expression::from@From<String> name=from_string
    ensures r == Expression::String($0),
//@ fn Expression::from@From<&str> name=from_str
    ensures r is String, r->String_0@ == $0@,
//@ fn Expression::from@From<Vec<u8>> name=from_bytes
    ensures r == Expression::Bytes($0),
//@ fn Expression::from@From<Vec<T>> name=from_vec loops=1
    ensures r is List, r->List_0@ =~= $0@.map_values(|x: T| x.conv()),
//@ before_loop 0
    let ghost gall = vx_it1@;
//@ loop 0
    invariant
        gall == $0@,
        vx_out1@.len() + vx_it1@.len() == gall.len(),
        forall|i: int| 0 <= i < vx_it1@.len() ==> #[trigger] vx_it1@[i] == gall[vx_out1@.len() + i],
        forall|i: int| 0 <= i < vx_out1@.len() ==> #[trigger] vx_out1@[i] == gall[i].conv(),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ fn Expression::from@From<Environment> name=from_env
    ensures r is Map, r->Map_0@ =~= $0.bindings@,
//@ entry
    proof { lemma_entries($0.bindings); }
//@ raw
} // verus!
} // w
//@ end
//@ include post.vspec
