//@ include lib.vspec
//@ default vclone ctx
//@ raw
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axo::ax_list_len, axl::ax_mkvec, axl::ax_vec_back};
type R = Result<Expression, Error>;
pub open spec fn lst(r: R, s: Seq<Expression>) -> bool { r is Ok && r->Ok_0 is List && r->Ok_0->List_0@ =~= s }
/// a list of exactly these two lists
pub open spec fn lst2(r: R, a: Seq<Expression>, b: Seq<Expression>) -> bool {
    r is Ok && r->Ok_0 is List && r->Ok_0->List_0@.len() == 2 && is_list(r->Ok_0->List_0@[0], a) && is_list(r->Ok_0->List_0@[1], b)
}
pub open spec fn is_list(e: Expression, s: Seq<Expression>) -> bool { e is List && e->List_0@ =~= s }
pub open spec fn li(s: Seq<Expression>) -> Expression { Expression::List(mkvec(s)) }
/// consecutive pieces of n elements, only the last one shorter
pub open spec fn chunks(s: Seq<Expression>, n: int) -> Seq<Expression>
    decreases s.len(),
{
    if s.len() == 0 || n < 1 { Seq::empty() } else if s.len() <= n { seq![li(s)] } else { seq![li(s.take(n))] + chunks(s.skip(n), n) }
}
pub proof fn lemma_piece(p: Seq<Expression>, t: Seq<Expression>, n: int)
    requires p.len() == n, n >= 1,
    ensures chunks(p + t, n) == seq![li(p)] + chunks(t, n),
{
    assert((p + t).take(n) =~= p);
    assert((p + t).skip(n) =~= t);
    if t.len() == 0 { assert(p + t =~= p); assert(seq![li(p)] + chunks(t, n) =~= seq![li(p)]); }
}
pub open spec fn is_pair(e: Expression) -> bool { e is List && e->List_0@.len() == 2 }
pub open spec fn all_pairs(s: Seq<Expression>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_pair(#[trigger] s[i]) }
pub open spec fn part(s: Seq<Expression>, k: int) -> Seq<Expression> { Seq::new(s.len(), |i: int| s[i]->List_0@[k]) }
} // verus!
verus! {
//@ end
//@ file src/binary/init/list_module.rs
//@ fn tail
    ensures args@.len() != 1 ==> r is Err && *final(env) == *old(env),
        args@.len() == 1 ==> match ev(args@[0], *old(env)) {
            Err(e) => r == R::Err(e),
            Ok(Expression::List(l)) => lst(r, l@.skip(nmin(1, l@.len() as int))),
            Ok(_) => r is Err,
        },
//@ fn head
    ensures args@.len() != 1 ==> r is Err && *final(env) == *old(env),
        args@.len() == 1 ==> match ev(args@[0], *old(env)) {
            Err(e) => r == R::Err(e),
            Ok(Expression::List(l)) => r == R::Ok(if l@.len() == 0 { Expression::None } else { l@[0] }),
            Ok(_) => r is Err,
        },
//@ fn chunk loops=1
    ensures args@.len() != 2 ==> r is Err && *final(env) == *old(env),
        args@.len() == 2 ==> match (ev(args@[0], *old(env)), ev(args@[1], af(args@[0], *old(env)))) {
            (Err(e), _) => r == R::Err(e),
            (_, Err(e)) => r == R::Err(e),
            (Ok(Expression::Integer(n)), Ok(Expression::List(l))) => n >= 1 ==> lst(r, chunks(l@, n as int)),
            _ => r is Err,
        },
//@ loop 0
    invariant n >= 1 ==> chunk@.len() < n && result@ + chunks(chunk@ + vx_it1@, n as int) =~= chunks(list@, n as int),
    ensures n >= 1 ==> chunk@.len() < n && result@ + chunks(chunk@, n as int) =~= chunks(list@, n as int),
    decreases vx_it1@.len(),
//@ before_loop 0
    proof { assert(Seq::<Expression>::empty() + list@ =~= list@); }
//@ loop_start 0
    let ghost c0 = chunk@; let ghost t0 = vx_it1@; let ghost r0 = result@;
    proof { if t0.len() == 0 { assert(c0 + t0 =~= c0); } }
//@ loop_end 0
    proof {
        if n >= 1 {
            let p = c0.push(t0[0]);
            assert(c0 + t0 =~= p + t0.skip(1));
            if p.len() == n {
                lemma_piece(p, t0.skip(1), n as int);
                assert(result@.last()->List_0@ == p);
                assert(mkvec(p)@ == p);
                assert(result@.last() == li(p));
                assert(result@ =~= r0 + seq![li(p)]);
                assert(chunk@ + vx_it1@ =~= t0.skip(1));
            }
        }
    }
//@ after_loop 0
    proof {
        let c = chunk@;
        assert(mkvec(c)@ == c);
        assert forall|v: Vec<Expression>| #[trigger] v@ == c implies Expression::List(v) == li(c) by { }
        assert(result@ + Seq::<Expression>::empty() =~= result@);
    }
//@ fn cons
    ensures args@.len() != 2 ==> r is Err && *final(env) == *old(env),
        args@.len() == 2 ==> match ev(args@[1], *old(env)) {
            Err(e) => r == R::Err(e),
            Ok(Expression::List(l)) => match ev(args@[0], af(args@[1], *old(env))) {
                Ok(x) => lst(r, seq![x] + l@),
                Err(e) => r == R::Err(e),
            },
            Ok(_) => r is Err,
        },
//@ fn append
    ensures args@.len() != 2 ==> r is Err && *final(env) == *old(env),
        args@.len() == 2 ==> match ev(args@[0], *old(env)) {
            Err(e) => r == R::Err(e),
            Ok(Expression::List(l)) => match ev(args@[1], af(args@[0], *old(env))) {
                Ok(x) => lst(r, l@ + seq![x]),
                Err(e) => r == R::Err(e),
            },
            Ok(_) => r is Err,
        },
//@ fn len
    ensures args@.len() != 1 ==> r is Err && *final(env) == *old(env),
        args@.len() == 1 ==> match ev(args@[0], *old(env)) {
            Err(e) => r == R::Err(e),
            Ok(Expression::List(l)) => r == R::Ok(Expression::Integer(l@.len() as i64)),
            _ => true,
        },
//@ fn rev
    ensures args@.len() != 1 ==> r is Err && *final(env) == *old(env),
        args@.len() == 1 ==> match ev(args@[0], *old(env)) {
            Err(e) => r == R::Err(e),
            Ok(Expression::List(l)) => lst(r, l@.reverse()),
            Ok(Expression::String(s)) => r is Ok && r->Ok_0 is String && r->Ok_0->String_0@ == s@.reverse(),
            Ok(Expression::Symbol(s)) => r is Ok && r->Ok_0 is Symbol && r->Ok_0->Symbol_0@ == s@.reverse(),
            Ok(Expression::Bytes(s)) => r is Ok && r->Ok_0 is Bytes && r->Ok_0->Bytes_0@ == s@.reverse(),
            Ok(_) => r is Err,
        },
//@ fn range loops=1
    ensures args@.len() != 2 ==> r is Err && *final(env) == *old(env),
        args@.len() == 2 ==> match (ev(args@[0], *old(env)), ev(args@[1], af(args@[0], *old(env)))) {
            (Err(e), _) => r == R::Err(e),
            (_, Err(e)) => r == R::Err(e),
            (Ok(Expression::Integer(a)), Ok(Expression::Integer(b))) => r is Ok && r->Ok_0 is List && {
                let l = r->Ok_0->List_0@;
                &&& l.len() == (if b >= a { b - a + 1 } else { 0 })
                &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == Expression::Integer((a + i) as i64)
            },
            _ => r is Err,
        },
//@ loop 0
    invariant
        vx_out1@.len() + vx_it1@.len() == (if b >= a { b - a + 1 } else { 0 }),
        forall|i: int| 0 <= i < vx_out1@.len() ==> #[trigger] vx_out1@[i] == Expression::Integer((a + i) as i64),
        forall|i: int| 0 <= i < vx_it1@.len() ==> #[trigger] vx_it1@[i] == a + vx_out1@.len() + i,
    decreases vx_it1@.len(),
//@ fn zip loops=1
    ensures args@.len() != 2 ==> r is Err && *final(env) == *old(env),
        args@.len() == 2 ==> match (ev(args@[0], *old(env)), ev(args@[1], af(args@[0], *old(env)))) {
            (Err(e), _) => r == R::Err(e),
            (_, Err(e)) => r == R::Err(e),
            (Ok(Expression::List(a)), Ok(Expression::List(b))) => r is Ok && r->Ok_0 is List && {
                let l = r->Ok_0->List_0@;
                &&& l.len() == nmin(a@.len() as int, b@.len() as int)
                &&& forall|i: int| 0 <= i < l.len() ==> is_list(#[trigger] l[i], seq![a@[i], b@[i]])
            },
            _ => r is Err,
        },
//@ loop 0
    invariant
        result@.len() + vx_it1@.len() == nmin(list1@.len() as int, list2@.len() as int),
        forall|i: int| 0 <= i < vx_it1@.len() ==> #[trigger] vx_it1@[i] == (list1@[result@.len() + i], list2@[result@.len() + i]),
        forall|i: int| 0 <= i < result@.len() ==> is_list(#[trigger] result@[i], seq![list1@[i], list2@[i]]),
    decreases vx_it1@.len(),
//@ fn unzip loops=1
    ensures args@.len() != 1 ==> r is Err && *final(env) == *old(env),
        args@.len() == 1 ==> match ev(args@[0], *old(env)) {
            Err(e) => r == R::Err(e),
            Ok(Expression::List(l)) => if all_pairs(l@) { lst2(r, part(l@, 0), part(l@, 1)) } else { r is Err },
            Ok(_) => r is Err,
        },
//@ loop 0
    invariant
        list1@.len() == list2@.len(), list1@.len() + vx_it1@.len() == list@.len(), vx_it1@ == list@.skip(list1@.len() as int),
        forall|i: int| 0 <= i < list1@.len() ==> is_pair(#[trigger] list@[i]),
        list1@ =~= part(list@.take(list1@.len() as int), 0), list2@ =~= part(list@.take(list1@.len() as int), 1),
    ensures all_pairs(list@), list1@ =~= part(list@, 0), list2@ =~= part(list@, 1),
    decreases vx_it1@.len(),
//@ fn take
    ensures args@.len() != 2 ==> r is Err && *final(env) == *old(env),
        args@.len() == 2 ==> match (ev(args@[0], *old(env)), ev(args@[1], af(args@[0], *old(env)))) {
            (Err(e), _) => r == R::Err(e),
            (_, Err(e)) => r == R::Err(e),
            (Ok(Expression::Integer(n)), Ok(Expression::List(l))) => n >= 0 ==> lst(r, l@.take(nmin(n as int, l@.len() as int))),
            _ => r is Err,
        },
//@ fn drop
    ensures args@.len() != 2 ==> r is Err && *final(env) == *old(env),
        args@.len() == 2 ==> match (ev(args@[0], *old(env)), ev(args@[1], af(args@[0], *old(env)))) {
            (Err(e), _) => r == R::Err(e),
            (_, Err(e)) => r == R::Err(e),
            (Ok(Expression::Integer(n)), Ok(Expression::List(l))) => n >= 0 ==> lst(r, l@.skip(nmin(n as int, l@.len() as int))),
            _ => r is Err,
        },
//@ fn split_at
    ensures args@.len() != 2 ==> r is Err && *final(env) == *old(env),
        args@.len() == 2 ==> match (ev(args@[0], *old(env)), ev(args@[1], af(args@[0], *old(env)))) {
            (Err(e), _) => r == R::Err(e),
            (_, Err(e)) => r == R::Err(e),
            (Ok(Expression::Integer(n)), Ok(Expression::List(l))) => n >= 0 ==> lst2(r, l@.take(nmin(n as int, l@.len() as int)), l@.skip(nmin(n as int, l@.len() as int))),
            _ => r is Err,
        },
//@ fn nth
    ensures args@.len() != 2 ==> r is Err && *final(env) == *old(env),
        args@.len() == 2 ==> match (ev(args@[0], *old(env)), ev(args@[1], af(args@[0], *old(env)))) {
            (Err(e), _) => r == R::Err(e),
            (_, Err(e)) => r == R::Err(e),
            (Ok(Expression::Integer(n)), Ok(Expression::List(l))) =>
                if 0 <= n < l@.len() { r == R::Ok(l@[n as int]) } else if n < 0 && -n <= l@.len() { r == R::Ok(l@[l@.len() + n]) } else { r is Err },
            _ => r is Err,
        },
//@ raw
} // verus!
//@ end
//@ raw
verus! {
// ---------------------------------------------------------------- the laws, from the contracts
pub proof fn law_take_drop(l: Seq<Expression>, n: int)
    requires n >= 0,
    ensures l.take(nmin(n, l.len() as int)) + l.skip(nmin(n, l.len() as int)) =~= l, l.take(nmin(n, l.len() as int)).len() == nmin(n, l.len() as int),
{ }
pub proof fn law_head_tail(l: Seq<Expression>)
    requires l.len() > 0,
    ensures seq![l[0]] + l.skip(nmin(1, l.len() as int)) =~= l,
{ }
pub proof fn law_rev(l: Seq<Expression>)
    ensures l.reverse().reverse() =~= l, l.reverse().len() == l.len(),
{ }
pub proof fn law_unzip_zip(z: Seq<Expression>, a: Seq<Expression>, b: Seq<Expression>)
    requires z.len() == nmin(a.len() as int, b.len() as int), forall|i: int| 0 <= i < z.len() ==> is_list(#[trigger] z[i], seq![a[i], b[i]]),
    ensures all_pairs(z), part(z, 0) =~= a.take(z.len() as int), part(z, 1) =~= b.take(z.len() as int),
{
    assert forall|i: int| 0 <= i < z.len() implies is_pair(#[trigger] z[i]) && z[i]->List_0@[0] == a[i] && z[i]->List_0@[1] == b[i] by { assert(is_list(z[i], seq![a[i], b[i]])); }
}
pub open spec fn joined(c: Seq<Expression>) -> Seq<Expression>
    decreases c.len(),
{
    if c.len() == 0 { Seq::empty() } else { c[0]->List_0@ + joined(c.skip(1)) }
}
pub proof fn law_chunks(l: Seq<Expression>, n: int)
    requires n >= 1, l.len() <= isize::MAX,
    ensures joined(chunks(l, n)) =~= l,
        forall|i: int| 0 <= i < chunks(l, n).len() ==> (#[trigger] chunks(l, n)[i]) is List && 1 <= chunks(l, n)[i]->List_0@.len() <= n && (i < chunks(l, n).len() - 1 ==> chunks(l, n)[i]->List_0@.len() == n),
    decreases l.len(),
{
    let c = chunks(l, n);
    if l.len() == 0 {
    } else if l.len() <= n {
        assert(c =~= seq![li(l)]);
        assert(mkvec(l)@ == l);
        assert(c.skip(1) =~= Seq::<Expression>::empty());
        assert(joined(c.skip(1)) =~= Seq::<Expression>::empty());
    } else {
        law_chunks(l.skip(n), n);
        assert(mkvec(l.take(n))@ == l.take(n));
        assert(c.skip(1) =~= chunks(l.skip(n), n));
        assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]) is List && 1 <= c[i]->List_0@.len() <= n && (i < c.len() - 1 ==> c[i]->List_0@.len() == n) by {
            if i > 0 { assert(c[i] == c.skip(1)[i - 1]); }
        }
        assert(l.take(n) + l.skip(n) =~= l);
    }
}
} // verus!
} // u
//@ end
//@ include post.vspec
