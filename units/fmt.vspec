//@ include lib.vspec
//@ include argc.vspec
//@ default vclone ctx exprfrom fmtshow fmtcat
//@ include wrap.vspec
//@ raw
verus! {
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
}
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axo::ax_list_len};
type R = Result<Expression, Error>;
pub open spec fn is_text(x: Expression, s: Seq<char>) -> bool { x is String && x->String_0@ =~= s }
/// one operand at least, the first evaluated, the result by its value
pub open spec fn of_first(r: R, a: Seq<Expression>, e: Environment, want: spec_fn(Expression, R) -> bool) -> bool {
    if a.len() == 0 { r is Err } else { match ev(a[0], e) { Err(x) => r == R::Err(x), Ok(v) => want(v, r) } }
}
pub open spec fn done() -> Seq<char> { "\x1b[m\x1b[0m"@ }
/// the value's text between the style and the end of it
pub open spec fn styled(r: R, a: Seq<Expression>, e: Environment, o: Seq<char>) -> bool {
    of_first(r, a, e, |v: Expression, q: R| q is Ok && is_text(q->Ok_0, o + display(v) + done()))
}
/// the characters outside escapes, which go from an escape character to the next m
pub open spec fn plain(s: Seq<char>, inside: bool) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s }
    else if s[0] == '\x1b' { plain(s.skip(1), true) }
    else if inside { plain(s.skip(1), s[0] != 'm') }
    else { seq![s[0]] + plain(s.skip(1), false) }
}
/// whether a text ends inside an escape
pub open spec fn left(s: Seq<char>, inside: bool) -> bool
    decreases s.len(),
{
    if s.len() == 0 { inside } else { left(s.skip(1), s[0] == '\x1b' || (inside && s[0] != 'm')) }
}
pub proof fn lemma_plain_add(a: Seq<char>, b: Seq<char>, i: bool)
    ensures plain(a + b, i) == plain(a, i) + plain(b, left(a, i)), left(a + b, i) == left(b, left(a, i)),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(plain(a, i) + plain(b, left(a, i)) =~= plain(b, i)); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_plain_add(a.skip(1), b, a[0] == '\x1b' || (i && a[0] != 'm'));
        assert(plain(a + b, i) =~= plain(a, i) + plain(b, left(a, i)));
    }
}
/// text without escapes is its own plain text
pub proof fn lemma_plain_same(s: Seq<char>)
    requires !s.contains('\x1b'),
    ensures plain(s, false) == s, left(s, false) == false,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s.contains(s[0]));
        assert forall|i: int| 0 <= i < s.skip(1).len() implies s.skip(1)[i] != '\x1b' by { assert(s.contains(s[i + 1])); }
        lemma_plain_same(s.skip(1));
        assert(plain(s, false) =~= s);
    }
}
/// a style: an escape character, any characters but m, and m
pub open spec fn style(o: Seq<char>) -> bool { o.len() >= 2 && o[0] == '\x1b' && o.last() == 'm' }
pub proof fn lemma_style(o: Seq<char>, i: bool)
    requires i || o[0] == '\x1b', o.len() > 0, o.last() == 'm', forall|j: int| 0 <= j < o.len() - 1 ==> o[j] != 'm',
    ensures o.len() > 1 || i ==> plain(o, i) =~= Seq::<char>::empty() && left(o, i) == false,
    decreases o.len(),
{
    if o.len() > 1 { assert(o[0] != 'm'); lemma_style(o.skip(1), true); assert(plain(o, i) == plain(o.skip(1), true)); assert(left(o, i) == left(o.skip(1), true)); }
    else if i { reveal_with_fuel(plain, 2); reveal_with_fuel(left, 2); assert(o[0] == 'm'); assert(o.skip(1) =~= Seq::<char>::empty()); }
}
/// what stripping is for: a styled text without its style is the text, and styles nest
pub proof fn theorem_strip(o: Seq<char>, s: Seq<char>)
    requires o.len() > 1, o[0] == '\x1b', o.last() == 'm', forall|j: int| 0 <= j < o.len() - 1 ==> o[j] != 'm', left(s, false) == false,
    ensures plain(o + s + done(), false) == plain(s, false), left(o + s + done(), false) == false,
{
    reveal_strlit("\x1b[m\x1b[0m");
    lemma_style(o, false);
    lemma_plain_add(o, s, false);
    lemma_plain_add(o + s, done(), false);
    lemma_style(done().take(3), false);
    lemma_style(done().skip(3), false);
    lemma_plain_add(done().take(3), done().skip(3), false);
    assert(done().take(3) + done().skip(3) =~= done());
    assert(plain(o, false) + plain(s, false) =~= plain(s, false));
    assert(plain(done(), false) =~= Seq::<char>::empty());
    assert(plain(s, false) + Seq::<char>::empty() =~= plain(s, false));
}
} // verus!
verus! {
//@ end
//@ file src/bin.rs
//@ fn strip_ansi_escapes loops=1
    ensures r@ == plain($0.shown(), false),
//@ before_loop 0
    let ghost gs = vx_it1@;
    proof { assert(Seq::<char>::empty() + plain(gs, false) =~= plain(gs, false)); }
//@ loop 0
    invariant result@ + plain(vx_it1@, is_in_escape) == plain(gs, false),
    ensures vx_it1@.len() == 0, result@ == plain(gs, false),
    decreases vx_it1@.len(),
//@ loop_start 0
    let ghost gr = result@; let ghost gi = vx_it1@; let ghost gb = is_in_escape;
    proof { if gi.len() == 0 { assert(result@ + gi =~= result@); } }
//@ loop_end 0
    proof { assert(result@ + plain(vx_it1@, is_in_escape) =~= gr + plain(gi, gb)); }
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ fn fill strlen
    ensures r@ == laid($0@, $1 as int),
//@ entry
    proof { lemma_small(bl($0@) as int, fewer($1 as int, bl($0@) as int)); }
//@ file src/binary/init/fmt_module.rs
//@ fn closure/strip name=f_strip
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) { Err(x) => r == R::Err(x), Ok(v) => r is Ok && is_text(r->Ok_0, plain(display(v), false)) },
//@ fn wrap
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match evals($0@[1], *old($1)) {
            (Err(x), _) => r == R::Err(x),
            (Ok(Expression::Integer(n)), e1) => match ev($0@[0], e1) { Err(x) => n < 0 && r is Err || r == R::Err(x), Ok(v) => if n < 0 { r is Err } else { r is Ok && is_text(r->Ok_0, laid(display(v), n as int)) } },
            _ => r is Err,
        },
//@ fn href revealstr
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match evals($0@[0], *old($1)) {
            (Err(x), _) => r == R::Err(x),
            (Ok(u), e1) => match ev($0@[1], e1) { Err(x) => r == R::Err(x), Ok(t) => r is Ok && is_text(r->Ok_0, "\x1b]8;;"@ + display(u) + "\x1b\\"@ + display(t) + "\x1b]8;;\x1b\\"@) },
        },
//@ entry
    proof { reveal_strlit("\x1b]8;;"); reveal_strlit("\x1b\\"); reveal_strlit("\x1b]8;;\x1b\\"); }
//@ fn closure/bold name=f_bold revealstr
    ensures styled(r, $0@, *old($1), "\x1b[1m"@),
//@ entry
    proof { reveal_strlit("\x1b[1m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/faint name=f_faint revealstr
    ensures styled(r, $0@, *old($1), "\x1b[2m"@),
//@ entry
    proof { reveal_strlit("\x1b[2m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/italics name=f_italics revealstr
    ensures styled(r, $0@, *old($1), "\x1b[3m"@),
//@ entry
    proof { reveal_strlit("\x1b[3m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/underline name=f_underline revealstr
    ensures styled(r, $0@, *old($1), "\x1b[4m"@),
//@ entry
    proof { reveal_strlit("\x1b[4m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/blink name=f_blink revealstr
    ensures styled(r, $0@, *old($1), "\x1b[5m"@),
//@ entry
    proof { reveal_strlit("\x1b[5m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/invert name=f_invert revealstr
    ensures styled(r, $0@, *old($1), "\x1b[7m"@),
//@ entry
    proof { reveal_strlit("\x1b[7m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/strike name=f_strike revealstr
    ensures styled(r, $0@, *old($1), "\x1b[9m"@),
//@ entry
    proof { reveal_strlit("\x1b[9m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/black name=f_black revealstr
    ensures styled(r, $0@, *old($1), "\x1b[90m"@),
//@ entry
    proof { reveal_strlit("\x1b[90m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/red name=f_red revealstr
    ensures styled(r, $0@, *old($1), "\x1b[91m"@),
//@ entry
    proof { reveal_strlit("\x1b[91m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/green name=f_green revealstr
    ensures styled(r, $0@, *old($1), "\x1b[92m"@),
//@ entry
    proof { reveal_strlit("\x1b[92m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/yellow name=f_yellow revealstr
    ensures styled(r, $0@, *old($1), "\x1b[93m"@),
//@ entry
    proof { reveal_strlit("\x1b[93m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/blue name=f_blue revealstr
    ensures styled(r, $0@, *old($1), "\x1b[94m"@),
//@ entry
    proof { reveal_strlit("\x1b[94m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/magenta name=f_magenta revealstr
    ensures styled(r, $0@, *old($1), "\x1b[95m"@),
//@ entry
    proof { reveal_strlit("\x1b[95m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/cyan name=f_cyan revealstr
    ensures styled(r, $0@, *old($1), "\x1b[96m"@),
//@ entry
    proof { reveal_strlit("\x1b[96m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/white name=f_white revealstr
    ensures styled(r, $0@, *old($1), "\x1b[97m"@),
//@ entry
    proof { reveal_strlit("\x1b[97m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/dark.black name=f_dark_black revealstr
    ensures styled(r, $0@, *old($1), "\x1b[30m"@),
//@ entry
    proof { reveal_strlit("\x1b[30m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/dark.red name=f_dark_red revealstr
    ensures styled(r, $0@, *old($1), "\x1b[31m"@),
//@ entry
    proof { reveal_strlit("\x1b[31m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/dark.green name=f_dark_green revealstr
    ensures styled(r, $0@, *old($1), "\x1b[32m"@),
//@ entry
    proof { reveal_strlit("\x1b[32m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/dark.yellow name=f_dark_yellow revealstr
    ensures styled(r, $0@, *old($1), "\x1b[33m"@),
//@ entry
    proof { reveal_strlit("\x1b[33m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/dark.blue name=f_dark_blue revealstr
    ensures styled(r, $0@, *old($1), "\x1b[34m"@),
//@ entry
    proof { reveal_strlit("\x1b[34m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/dark.magenta name=f_dark_magenta revealstr
    ensures styled(r, $0@, *old($1), "\x1b[35m"@),
//@ entry
    proof { reveal_strlit("\x1b[35m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/dark.cyan name=f_dark_cyan revealstr
    ensures styled(r, $0@, *old($1), "\x1b[36m"@),
//@ entry
    proof { reveal_strlit("\x1b[36m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ fn closure/dark.white name=f_dark_white revealstr
    ensures styled(r, $0@, *old($1), "\x1b[37m"@),
//@ entry
    proof { reveal_strlit("\x1b[37m"); reveal_strlit("\x1b[m\x1b[0m"); }
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
