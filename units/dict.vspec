//@ include lib.vspec
//@ default vclone ctx
//@ raw
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axe::ax_map_ext, axo::ax_list_len, axl::ax_mkvec, axl::ax_vec_back, axe::ax_map_ents};
type R = Result<Expression, Error>;
pub open spec fn is_map(r: R, m: Map<Seq<char>, Expression>) -> bool { r is Ok && r->Ok_0 is Map && r->Ok_0->Map_0@ =~= m }
/// the entries inserted in order
pub open spec fn inserted(m: Map<Seq<char>, Expression>, s: Seq<(String, Expression)>) -> Map<Seq<char>, Expression>
    decreases s.len(),
{
    if s.len() == 0 { m } else { inserted(m.insert(s[0].0@, s[0].1), s.skip(1)) }
}
/// the items that are pairs, inserted in order
pub open spec fn from_items(m: Map<Seq<char>, Expression>, s: Seq<Expression>) -> Map<Seq<char>, Expression>
    decreases s.len(),
{
    if s.len() == 0 { m } else { from_items(if s[0] is List && s[0]->List_0@.len() == 2 { m.insert(display(s[0]->List_0@[0]), s[0]->List_0@[1]) } else { m }, s.skip(1)) }
}
pub open spec fn entry(e: Expression, x: (String, Expression)) -> bool { e is List && e->List_0@ =~= seq![Expression::String(x.0), x.1] }
/// one of the first j entries has this key
pub open spec fn before(s: Seq<(String, Expression)>, j: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < j && (#[trigger] s[i]).0@ == k }
pub proof fn lemma_irrefl(a: Seq<char>)
    ensures !text_lt(a, a),
    decreases a.len(),
{ if a.len() > 0 { lemma_irrefl(a.skip(1)); } }
pub proof fn lemma_entries(m: BTreeMap<String, Expression>)
    ensures forall|i: int, j: int| 0 <= i < j < m.ents().len() ==> (#[trigger] m.ents()[i]).0@ != (#[trigger] m.ents()[j]).0@,
        forall|k: Seq<char>| #[trigger] m@.contains_key(k) <==> before(m.ents(), m.ents().len() as int, k),
{
    axe::ax_map_ordered(m);
    assert forall|i: int, j: int| 0 <= i < j < m.ents().len() implies (#[trigger] m.ents()[i]).0@ != (#[trigger] m.ents()[j]).0@ by { lemma_irrefl(m.ents()[i].0@); }
    assert forall|k: Seq<char>| #[trigger] m@.contains_key(k) <==> before(m.ents(), m.ents().len() as int, k) by {
        axe::ax_map_view(m, k);
        if before(m.ents(), m.ents().len() as int, k) { let i = choose|i: int| 0 <= i < m.ents().len() && (#[trigger] m.ents()[i]).0@ == k; axe::ax_map_ents(m, i); }
    }
    
}
/// two values evaluated one after the other
pub open spec fn two(a: Seq<Expression>, e: Environment) -> Result<(Expression, Expression), Error> {
    match evals(a[0], e) {
        (Err(x), _) => Err(x),
        (Ok(v), e1) => match evals(a[1], e1) { (Err(x), _) => Err(x), (Ok(w), _) => Ok((v, w)) },
    }
}
} // verus!
verus! {
//@ end
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ file src/binary/init/dict_module.rs
//@ fn closure/insert name=dict_insert
    ensures $0@.len() != 3 ==> r is Err,
        $0@.len() == 3 ==> match two($0@, *old($1)) {
            Err(x) => r == R::Err(x),
            Ok((v, k)) => match ev($0@[2], af($0@[1], af($0@[0], *old($1)))) {
                Err(x) => r == R::Err(x),
                Ok(x) => match v { Expression::Map(m) => is_map(r, m@.insert(display(k), x)), _ => r == R::Ok(Expression::None) },
            },
        },
//@ fn closure/remove name=dict_remove
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match two($0@, *old($1)) {
            Err(x) => r == R::Err(x),
            Ok((Expression::Map(m), k)) => is_map(r, m@.remove(display(k))),
            Ok(_) => r == R::Ok(Expression::None),
        },
//@ fn closure/has? name=dict_has
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match two($0@, *old($1)) {
            Err(x) => r == R::Err(x),
            Ok((Expression::Map(m), k)) => r == R::Ok(Expression::Boolean(m@.contains_key(display(k)))),
            Ok(_) => r == R::Ok(Expression::None),
        },
//@ fn closure/len name=dict_len
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(Expression::Map(m)) => r == R::Ok(Expression::Integer(m.ents().len() as i64)) || m.ents().len() > i64::MAX,
            Ok(_) => true,
        },
//@ fn closure/keys name=dict_keys loops=1
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(Expression::Map(m)) => r is Ok && r->Ok_0 is List && {
                let l = r->Ok_0->List_0@;
                &&& l.len() == m.ents().len()
                &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == Expression::String(m.ents()[i].0)
            },
            Ok(_) => r == R::Ok(Expression::None),
        },
//@ before_loop 0
    let ghost all = map.ents();
//@ loop 0
    invariant vx_out1@.len() + vx_it1@.len() == all.len(),
        forall|i: int| 0 <= i < vx_out1@.len() ==> #[trigger] vx_out1@[i] == Expression::String(all[i].0),
        forall|i: int| 0 <= i < vx_it1@.len() ==> #[trigger] vx_it1@[i] == all[vx_out1@.len() + i].0,
    decreases vx_it1@.len(),
//@ fn closure/values name=dict_values
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(Expression::Map(m)) => r is Ok && r->Ok_0 is List && {
                let l = r->Ok_0->List_0@;
                &&& l.len() == m.ents().len()
                &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == m.ents()[i].1
            },
            Ok(_) => r == R::Ok(Expression::None),
        },
//@ fn closure/items name=dict_items loops=2
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(Expression::Map(m)) => r is Ok && r->Ok_0 is List && {
                let l = r->Ok_0->List_0@;
                &&& l.len() == m.ents().len()
                &&& forall|i: int| 0 <= i < l.len() ==> entry(#[trigger] l[i], m.ents()[i])
            },
            Ok(Expression::List(_)) => true,
            Ok(_) => r == R::Ok(Expression::None),
        },
//@ before_loop 0
    let ghost all = map.ents();
//@ loop 0
    invariant vx_out1@.len() + vx_it1@.len() == all.len(),
        forall|i: int| 0 <= i < vx_it1@.len() ==> #[trigger] vx_it1@[i] == all[vx_out1@.len() + i],
        forall|i: int| 0 <= i < vx_out1@.len() ==> entry(#[trigger] vx_out1@[i], all[i]),
    decreases vx_it1@.len(),
//@ loop 1
    decreases vx_it2@.len(),
//@ fn closure/from-items name=dict_from_items loops=1
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(Expression::List(l)) => is_map(r, from_items(Map::empty(), l@)),
            Ok(_) => r == R::Ok(Expression::None),
        },
//@ loop 0
    invariant from_items(map@, vx_it1@) == from_items(Map::empty(), list@),
    ensures map@ == from_items(Map::empty(), list@),
    decreases vx_it1@.len(),
//@ fn closure/union name=dict_union loops=1
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match two($0@, *old($1)) {
            Err(x) => r == R::Err(x),
            Ok((Expression::Map(a), Expression::Map(b))) => is_map(r, a@.union_prefer_right(b@)),
            Ok(_) => r == R::Ok(Expression::None),
        },
//@ before_loop 0
    let ghost all = map2.ents();
    proof { lemma_entries(map2); }
//@ loop 0
    invariant vx_it1@.len() <= all.len(), vx_it1@ == all.skip(all.len() - vx_it1@.len()),
        forall|k: Seq<char>| #[trigger] map@.contains_key(k) <==> map1@.contains_key(k) || before(all, all.len() - vx_it1@.len(), k),
        forall|i: int| 0 <= i < all.len() - vx_it1@.len() ==> map@[(#[trigger] all[i]).0@] == all[i].1,
        forall|k: Seq<char>| map1@.contains_key(k) && !before(all, all.len() - vx_it1@.len(), k) ==> #[trigger] map@[k] == map1@[k],
    decreases vx_it1@.len(),
//@ fn closure/intersect name=dict_intersect loops=1
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match two($0@, *old($1)) {
            Err(x) => r == R::Err(x),
            Ok((Expression::Map(a), Expression::Map(b))) => is_map(r, a@.restrict(b@.dom())),
            Ok(_) => r == R::Ok(Expression::None),
        },
//@ before_loop 0
    let ghost all = map1.ents();
    proof { lemma_entries(map1); }
//@ loop 0
    invariant vx_it1@.len() <= all.len(), vx_it1@ == all.skip(all.len() - vx_it1@.len()),
        forall|k: Seq<char>| #[trigger] map@.contains_key(k) <==> map2@.contains_key(k) && before(all, all.len() - vx_it1@.len(), k),
        forall|i: int| 0 <= i < all.len() - vx_it1@.len() && map2@.contains_key(all[i].0@) ==> map@[(#[trigger] all[i]).0@] == all[i].1,
    decreases vx_it1@.len(),
//@ fn closure/difference name=dict_difference loops=1
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match two($0@, *old($1)) {
            Err(x) => r == R::Err(x),
            Ok((Expression::Map(a), Expression::Map(b))) => is_map(r, a@.remove_keys(b@.dom())),
            Ok(_) => r == R::Ok(Expression::None),
        },
//@ before_loop 0
    let ghost all = map2.ents();
    proof { lemma_entries(map2); }
//@ loop 0
    invariant vx_it1@.len() <= all.len(), forall|i: int| 0 <= i < vx_it1@.len() ==> *(#[trigger] vx_it1@[i]) == all[all.len() - vx_it1@.len() + i].0,
        forall|k: Seq<char>| #[trigger] map@.contains_key(k) <==> map1@.contains_key(k) && !before(all, all.len() - vx_it1@.len(), k),
        forall|k: Seq<char>| map@.contains_key(k) ==> #[trigger] map@[k] == map1@[k],
    decreases vx_it1@.len(),
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
