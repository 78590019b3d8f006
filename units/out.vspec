//@ include pre.vspec
//@ include expr.vspec
//@ include std.vspec
//@ include coll.vspec
//@ include argc.vspec
//@ include outbase.vspec
//@ default vclone ctx exprfrom fmtshow fmtcat printout revealstr world=eval,vx_store,read,is_log_level_enabled,o_print,o_println,o_debug,l_set,l_get,l_disable,l_enabled,l_info,l_warn,l_debug,l_error,l_trace,l_echo
//@ raw
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axo::ax_list_len, axw::ax_more, axw::ax_nothing, axw::ax_level, axw::ax_leveled};
type R = Result<Expression, Error>;
/// What printing operands does: each is evaluated and then printed, the last with `last` after it, the others with a blank
pub open spec fn says(a: Seq<Expression>, i: int, e: Environment, w: VxWorld, last: Seq<char>, bug: bool) -> (R, Environment, VxWorld)
    decreases a.len() - i,
{
    if i >= a.len() { (R::Ok(Expression::None), e, w) }
    else { match evals(a[i], e, w) {
        (Err(x), e1, w1) => (R::Err(x), e1, w1),
        (Ok(v), e1, w1) => says(a, i + 1, e1, printed(w1, (if bug { debugged(v) } else { display(v) }) + (if i == a.len() - 1 { last } else { seq![' '] })), last, bug),
    } }
}
/// the lines of a message, each with the prefix before it; the last without the end of a line, and not at all when it is empty
pub open spec fn lines_from(l: Seq<Seq<char>>, p: Seq<char>, i: int) -> Seq<char>
    decreases l.len() - i,
{
    if i >= l.len() || i < 0 { Seq::empty() }
    else if i == l.len() - 1 { if l[i].len() == 0 { Seq::empty() } else { p + l[i] } }
    else { p + l[i] + seq!['\n'] + lines_from(l, p, i + 1) }
}
/// what is printed for one operand; `fresh` when it begins a line
pub open spec fn entry(x: Seq<char>, p: Seq<char>, fresh: bool, last: bool) -> Seq<char> {
    let l = pieces(x, seq!['\n']);
    if l.len() > 1 { lines_from(l, p, 0) }
    else { (if fresh { p } else { Seq::empty() }) + x + (if last { seq!['\n'] } else { seq![' '] }) }
}
pub open spec fn logs(a: Seq<Expression>, i: int, e: Environment, w: VxWorld, p: Seq<char>, fresh: bool) -> (R, Environment, VxWorld)
    decreases a.len() - i,
{
    if i >= a.len() { (R::Ok(Expression::None), e, w) }
    else { match evals(a[i], e, w) {
        (Err(x), e1, w1) => (R::Err(x), e1, w1),
        (Ok(v), e1, w1) => logs(a, i + 1, e1, printed(w1, entry(display(v), p, fresh, i == a.len() - 1)), p, ends(display(v), seq!['\n'])),
    } }
}
/// a level is enabled when it is zero or less, or at most the level that is set
pub open spec fn enabled(w: VxWorld, n: i64) -> bool { n <= 0 || level(w) >= n }
/// nothing at all unless the level is enabled
pub open spec fn message(a: Seq<Expression>, e: Environment, w: VxWorld, p: Seq<char>, n: i64) -> (R, Environment, VxWorld) {
    if enabled(w, n) { logs(a, 0, e, w, p, true) } else { (R::Ok(Expression::None), e, w) }
}
pub open spec fn gn(s: Seq<(usize, &Expression)>, l: Seq<Expression>) -> int { l.len() - s.len() }
pub open spec fn numbered(s: Seq<(usize, &Expression)>, l: Seq<Expression>) -> bool {
    s.len() <= l.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == gn(s, l) + i && *s[i].1 == l[gn(s, l) + i]
}
pub open spec fn lines_left(s: Seq<(usize, &&str)>, l: Seq<&str>) -> bool {
    s.len() <= l.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == l.len() - s.len() + i && *s[i].1 == l[l.len() - s.len() + i]
}
pub proof fn lemma_texts()
    ensures " "@ == seq![' '], "\n"@ == seq!['\n'],
        forall|s: Seq<char>| #[trigger] (s + Seq::<char>::empty()) == s, forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s,
        forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] (a + b + c) == a + (b + c),
{
    reveal_strlit(" "); reveal_strlit("\n");
    assert(" "@ =~= seq![' ']); assert("\n"@ =~= seq!['\n']);
    assert forall|s: Seq<char>| #[trigger] (s + Seq::<char>::empty()) == s by { assert(s + Seq::<char>::empty() =~= s); }
    assert forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s by { assert(Seq::<char>::empty() + s =~= s); }
    assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] (a + b + c) == a + (b + c) by { assert(a + b + c =~= a + (b + c)); }
}
// ---------------------------------------------------------------- what the prefix is for
pub mod axp {
    use super::*;
    verus! {
    /// std: the pieces between newlines hold none; there are several exactly when there is a newline, and
    /// the last is empty exactly when the text ends in one
    pub axiom fn ax_pieces(s: Seq<char>)
        ensures pieces(s, seq!['\n']).len() >= 1, forall|i: int| 0 <= i < pieces(s, seq!['\n']).len() ==> !(#[trigger] pieces(s, seq!['\n'])[i]).contains('\n'),
            pieces(s, seq!['\n']).len() == 1 ==> pieces(s, seq!['\n'])[0] == s,
            pieces(s, seq!['\n']).len() > 1 ==> (ends(s, seq!['\n']) <==> pieces(s, seq!['\n']).last().len() == 0);
    }
}
/// every line of s begins with p; its first characters too when they begin a line
pub open spec fn tagged(s: Seq<char>, p: Seq<char>, fresh: bool) -> bool {
    forall|k: int| 0 <= k < s.len() && (if k == 0 { fresh } else { s[k - 1] == '\n' }) ==> starts(#[trigger] s.skip(k), p)
}
pub proof fn lemma_lines(l: Seq<Seq<char>>, p: Seq<char>, i: int)
    requires 0 <= i < l.len(), !p.contains('\n'), forall|j: int| 0 <= j < l.len() ==> !(#[trigger] l[j]).contains('\n'),
    ensures tagged(lines_from(l, p, i), p, true), i < l.len() - 1 ==> lines_from(l, p, i).len() > 0,
        lines_from(l, p, i).len() > 0 ==> (lines_from(l, p, i).last() == '\n') == (i < l.len() - 1 && l.last().len() == 0),
    decreases l.len() - i,
{
    let s = lines_from(l, p, i);
    let h = p + l[i];
    assert forall|k: int| 0 <= k < h.len() implies h[k] != '\n' by { if k < p.len() { assert(p.contains(p[k])); } else { assert(l[i].contains(l[i][k - p.len()])); } }
    assert(l.last() == l[l.len() - 1]);
    if i == l.len() - 1 {
        if l[i].len() > 0 {
            assert(s == h);
            assert forall|k: int| 0 <= k < s.len() && (if k == 0 { true } else { s[k - 1] == '\n' }) implies starts(#[trigger] s.skip(k), p) by { assert(s.skip(0).take(p.len() as int) =~= p); }
        }
    } else {
        let t = lines_from(l, p, i + 1);
        lemma_lines(l, p, i + 1);
        assert(s == h + seq!['\n'] + t);
        assert forall|k: int| 0 <= k < s.len() && (if k == 0 { true } else { s[k - 1] == '\n' }) implies starts(#[trigger] s.skip(k), p) by {
            if k == 0 { assert(s.skip(0).take(p.len() as int) =~= p); }
            else if k <= h.len() { assert(s[k - 1] == h[k - 1]); }
            else {
                let m = k - h.len() - 1;
                assert(s.skip(k) =~= t.skip(m));
                if m > 0 { assert(s[k - 1] == t[m - 1]); }
                assert(starts(t.skip(m), p));
            }
        }
        if t.len() > 0 { assert(s.last() == t.last()); }
    }
}
/// every line a message puts out begins with the prefix, and `fresh` says where the next operand's text begins
pub proof fn theorem_lines(x: Seq<char>, p: Seq<char>, fresh: bool, last: bool)
    requires !p.contains('\n'),
    ensures tagged(entry(x, p, fresh, last), p, fresh), entry(x, p, fresh, last).len() > 0,
        !last ==> (entry(x, p, fresh, last).last() == '\n') == ends(x, seq!['\n']),
{
    axp::ax_pieces(x);
    let l = pieces(x, seq!['\n']);
    let s = entry(x, p, fresh, last);
    if l.len() > 1 { lemma_lines(l, p, 0); }
    else {
        assert(l[0] == x);
        assert forall|k: int| 0 <= k < x.len() implies x[k] != '\n' by { assert(x.contains(x[k])); }
        let h = if fresh { p } else { Seq::empty() };
        assert forall|k: int| 0 <= k < s.len() - 1 implies #[trigger] s[k] != '\n' by { if k < h.len() { assert(p.contains(p[k])); } else { assert(s[k] == x[k - h.len()]); } }
        if fresh { assert(s.skip(0).take(p.len() as int) =~= p); }
        if ends(x, seq!['\n']) { assert(x.skip(x.len() - 1)[0] == x[x.len() - 1]); assert(x.skip(x.len() - 1) =~= seq!['\n']); assert(seq!['\n'][0] == '\n'); }
    }
}
} // verus!
verus! {
//@ end
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ fn closure/print name=o_print loops=1
    ensures (r, *final($1), *final(vx_w)) == says($0@, 0, *old($1), *old(vx_w), Seq::empty(), false),
//@ entry
    proof { lemma_texts(); }
//@ loop 0
    invariant args == $0, numbered(vx_it1@, args@),
        says(args@, 0, *old(env), *old(vx_w), Seq::empty(), false) == says(args@, gn(vx_it1@, args@), *env, *vx_w, Seq::empty(), false),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_texts(); reveal_with_fuel(says, 2); }
//@ fn closure/println name=o_println loops=1
    ensures (r, *final($1), *final(vx_w)) == says($0@, 0, *old($1), *old(vx_w), seq!['\n'], false),
//@ entry
    proof { lemma_texts(); }
//@ loop 0
    invariant args == $0, numbered(vx_it1@, args@),
        says(args@, 0, *old(env), *old(vx_w), seq!['\n'], false) == says(args@, gn(vx_it1@, args@), *env, *vx_w, seq!['\n'], false),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_texts(); reveal_with_fuel(says, 2); }
//@ fn closure/debug name=o_debug loops=1
    ensures (r, *final($1), *final(vx_w)) == says($0@, 0, *old($1), *old(vx_w), seq!['\n'], true),
//@ entry
    proof { lemma_texts(); }
//@ loop 0
    invariant args == $0, numbered(vx_it1@, args@),
        says(args@, 0, *old(env), *old(vx_w), seq!['\n'], true) == says(args@, gn(vx_it1@, args@), *env, *vx_w, seq!['\n'], true),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_texts(); reveal_with_fuel(says, 2); }
//@ file src/binary/init/log_module.rs
//@ consts NONE ERROR WARN INFO DEBUG TRACE
//@ fn is_log_level_enabled
    ensures r == enabled(*old(vx_w), level), *final(vx_w) == *old(vx_w),
//@ fn closure/set-level name=l_set
    ensures $0@.len() != 1 ==> r is Err && *final($1) == *old($1) && *final(vx_w) == *old(vx_w),
        $0@.len() == 1 ==> match evals($0@[0], *old($1), *old(vx_w)) {
            (Err(x), e1, w1) => r == R::Err(x) && *final($1) == e1 && *final(vx_w) == w1,
            (Ok(Expression::Integer(n)), e1, w1) => r == R::Ok(Expression::None) && *final($1) == e1 && *final(vx_w) == leveled(w1, n),
            (Ok(_), e1, w1) => r is Err && *final($1) == e1 && *final(vx_w) == w1,
        },
//@ fn closure/get-level name=l_get
    ensures *final($1) == *old($1) && *final(vx_w) == *old(vx_w), r == R::Ok(Expression::Integer(level(*old(vx_w)))),
//@ fn closure/disable name=l_disable
    ensures *final($1) == *old($1), r == R::Ok(Expression::None) && *final(vx_w) == leveled(*old(vx_w), 0),
//@ fn closure/enabled? name=l_enabled
    ensures $0@.len() != 1 ==> r is Err && *final($1) == *old($1) && *final(vx_w) == *old(vx_w),
        $0@.len() == 1 ==> match evals($0@[0], *old($1), *old(vx_w)) {
            (Err(x), e1, w1) => r == R::Err(x) && *final($1) == e1 && *final(vx_w) == w1,
            (Ok(Expression::Integer(n)), e1, w1) => r == R::Ok(Expression::Boolean(enabled(w1, n))) && *final($1) == e1 && *final(vx_w) == w1,
            (Ok(_), e1, w1) => r is Err && *final($1) == e1 && *final(vx_w) == w1,
        },
//@ fn closure/info name=l_info loops=2
    ensures (r, *final($1), *final(vx_w)) == message($0@, *old($1), *old(vx_w), "\x1b[92m[INFO]\x1b[m "@, 3),
//@ entry
    proof { lemma_texts(); }
//@ loop 0
    invariant args == $0, prefix@ == "\x1b[92m[INFO]\x1b[m "@, numbered(vx_it1@, args@),
        logs(args@, 0, *old(env), *old(vx_w), "\x1b[92m[INFO]\x1b[m "@, true) == logs(args@, gn(vx_it1@, args@), *env, *vx_w, "\x1b[92m[INFO]\x1b[m "@, last_was_newline),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_texts(); reveal_with_fuel(logs, 2); reveal_with_fuel(lines_from, 2); }
//@ before_loop 1
    let ghost gl = texts(lines@); let ghost gw = *vx_w;
//@ loop 1
    invariant prefix@ == "\x1b[92m[INFO]\x1b[m "@, gl == texts(lines@), gl.len() > 1, lines_left(vx_it2@, lines@),
        printed(*vx_w, lines_from(gl, "\x1b[92m[INFO]\x1b[m "@, gl.len() - vx_it2@.len())) == printed(gw, lines_from(gl, "\x1b[92m[INFO]\x1b[m "@, 0)),
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ loop_start 1
    proof { lemma_texts(); reveal_with_fuel(lines_from, 2); }
//@ fn closure/warn name=l_warn loops=2
    ensures (r, *final($1), *final(vx_w)) == message($0@, *old($1), *old(vx_w), "\x1b[93m[WARN]\x1b[m "@, 2),
//@ entry
    proof { lemma_texts(); }
//@ loop 0
    invariant args == $0, prefix@ == "\x1b[93m[WARN]\x1b[m "@, numbered(vx_it1@, args@),
        logs(args@, 0, *old(env), *old(vx_w), "\x1b[93m[WARN]\x1b[m "@, true) == logs(args@, gn(vx_it1@, args@), *env, *vx_w, "\x1b[93m[WARN]\x1b[m "@, last_was_newline),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_texts(); reveal_with_fuel(logs, 2); reveal_with_fuel(lines_from, 2); }
//@ before_loop 1
    let ghost gl = texts(lines@); let ghost gw = *vx_w;
//@ loop 1
    invariant prefix@ == "\x1b[93m[WARN]\x1b[m "@, gl == texts(lines@), gl.len() > 1, lines_left(vx_it2@, lines@),
        printed(*vx_w, lines_from(gl, "\x1b[93m[WARN]\x1b[m "@, gl.len() - vx_it2@.len())) == printed(gw, lines_from(gl, "\x1b[93m[WARN]\x1b[m "@, 0)),
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ loop_start 1
    proof { lemma_texts(); reveal_with_fuel(lines_from, 2); }
//@ fn closure/debug name=l_debug loops=2
    ensures (r, *final($1), *final(vx_w)) == message($0@, *old($1), *old(vx_w), "\x1b[94m[DEBUG]\x1b[m "@, 4),
//@ entry
    proof { lemma_texts(); }
//@ loop 0
    invariant args == $0, prefix@ == "\x1b[94m[DEBUG]\x1b[m "@, numbered(vx_it1@, args@),
        logs(args@, 0, *old(env), *old(vx_w), "\x1b[94m[DEBUG]\x1b[m "@, true) == logs(args@, gn(vx_it1@, args@), *env, *vx_w, "\x1b[94m[DEBUG]\x1b[m "@, last_was_newline),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_texts(); reveal_with_fuel(logs, 2); reveal_with_fuel(lines_from, 2); }
//@ before_loop 1
    let ghost gl = texts(lines@); let ghost gw = *vx_w;
//@ loop 1
    invariant prefix@ == "\x1b[94m[DEBUG]\x1b[m "@, gl == texts(lines@), gl.len() > 1, lines_left(vx_it2@, lines@),
        printed(*vx_w, lines_from(gl, "\x1b[94m[DEBUG]\x1b[m "@, gl.len() - vx_it2@.len())) == printed(gw, lines_from(gl, "\x1b[94m[DEBUG]\x1b[m "@, 0)),
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ loop_start 1
    proof { lemma_texts(); reveal_with_fuel(lines_from, 2); }
//@ fn closure/error name=l_error loops=2
    ensures (r, *final($1), *final(vx_w)) == message($0@, *old($1), *old(vx_w), "\x1b[91m[ERROR]\x1b[m "@, 1),
//@ entry
    proof { lemma_texts(); }
//@ loop 0
    invariant args == $0, prefix@ == "\x1b[91m[ERROR]\x1b[m "@, numbered(vx_it1@, args@),
        logs(args@, 0, *old(env), *old(vx_w), "\x1b[91m[ERROR]\x1b[m "@, true) == logs(args@, gn(vx_it1@, args@), *env, *vx_w, "\x1b[91m[ERROR]\x1b[m "@, last_was_newline),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_texts(); reveal_with_fuel(logs, 2); reveal_with_fuel(lines_from, 2); }
//@ before_loop 1
    let ghost gl = texts(lines@); let ghost gw = *vx_w;
//@ loop 1
    invariant prefix@ == "\x1b[91m[ERROR]\x1b[m "@, gl == texts(lines@), gl.len() > 1, lines_left(vx_it2@, lines@),
        printed(*vx_w, lines_from(gl, "\x1b[91m[ERROR]\x1b[m "@, gl.len() - vx_it2@.len())) == printed(gw, lines_from(gl, "\x1b[91m[ERROR]\x1b[m "@, 0)),
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ loop_start 1
    proof { lemma_texts(); reveal_with_fuel(lines_from, 2); }
//@ fn closure/trace name=l_trace loops=2
    ensures (r, *final($1), *final(vx_w)) == message($0@, *old($1), *old(vx_w), "\x1b[95m[TRACE]\x1b[m "@, 5),
//@ entry
    proof { lemma_texts(); }
//@ loop 0
    invariant args == $0, prefix@ == "\x1b[95m[TRACE]\x1b[m "@, numbered(vx_it1@, args@),
        logs(args@, 0, *old(env), *old(vx_w), "\x1b[95m[TRACE]\x1b[m "@, true) == logs(args@, gn(vx_it1@, args@), *env, *vx_w, "\x1b[95m[TRACE]\x1b[m "@, last_was_newline),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_texts(); reveal_with_fuel(logs, 2); reveal_with_fuel(lines_from, 2); }
//@ before_loop 1
    let ghost gl = texts(lines@); let ghost gw = *vx_w;
//@ loop 1
    invariant prefix@ == "\x1b[95m[TRACE]\x1b[m "@, gl == texts(lines@), gl.len() > 1, lines_left(vx_it2@, lines@),
        printed(*vx_w, lines_from(gl, "\x1b[95m[TRACE]\x1b[m "@, gl.len() - vx_it2@.len())) == printed(gw, lines_from(gl, "\x1b[95m[TRACE]\x1b[m "@, 0)),
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ loop_start 1
    proof { lemma_texts(); reveal_with_fuel(lines_from, 2); }
//@ fn closure/echo name=l_echo loops=1
    ensures (r, *final($1), *final(vx_w)) == says($0@, 0, *old($1), *old(vx_w), seq!['\n'], false),
//@ entry
    proof { lemma_texts(); }
//@ loop 0
    invariant args == $0, numbered(vx_it1@, args@),
        says(args@, 0, *old(env), *old(vx_w), seq!['\n'], false) == says(args@, gn(vx_it1@, args@), *env, *vx_w, seq!['\n'], false),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_texts(); reveal_with_fuel(says, 2); }
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
