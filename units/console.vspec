//@ include pre.vspec
//@ include expr.vspec
//@ include std.vspec
//@ include coll.vspec
//@ include argc.vspec
//@ include outbase.vspec
//@ default vclone ctx exprfrom fmtshow fmtcat printout revealstr world=eval,c_mode_alternate,c_mode_normal,c_to,c_up,c_down,c_left,c_right,c_save,c_restore,c_hide,c_show,write,title,clear,width,height,terminal_size
//@ raw
verus! {
/// a number as it is written
pub uninterp spec fn digits(n: i64) -> Seq<char>;
impl VxToString for i64 {
    open spec fn shown(&self) -> Seq<char> { digits(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
/// the size of the terminal the standard output goes to, if there is one
pub struct Width(pub u16);
pub struct Height(pub u16);
pub uninterp spec fn size(w: VxWorld) -> Option<(Width, Height)>;
#[verifier::external_body]
pub fn terminal_size(vx_w: &mut VxWorld) -> (r: Option<(Width, Height)>) ensures r == size(*old(vx_w)), *final(vx_w) == *old(vx_w) { unimplemented!() }
impl VxNum for u16 { open spec fn whole(self) -> int { self as int } open spec fn real(self) -> bool { false } }
}
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axo::ax_list_len, axw::ax_more, axw::ax_nothing};
type R = Result<Expression, Error>;
/// the terminal's sequence made of these pieces
pub open spec fn seqn(a: Seq<char>, n: i64, b: Seq<char>) -> Seq<char> { a + digits(n) + b }
/// one operand, an integer; the sequence with it in it is sent, and nothing else happens
pub open spec fn sends(r: R, a: Seq<Expression>, e: Environment, w: VxWorld, e1: Environment, w1: VxWorld, end: Seq<char>) -> bool {
    if a.len() != 1 { r is Err && e1 == e && w1 == w }
    else { match evals(a[0], e, w) {
        (Err(x), e2, w2) => r == R::Err(x) && e1 == e2 && w1 == w2,
        (Ok(Expression::Integer(n)), e2, w2) => r == R::Ok(Expression::None) && e1 == e2 && w1 == printed(w2, "\x1b["@ + digits(n) + end),
        (Ok(_), e2, w2) => r is Err && e1 == e2 && w1 == w2,
    } }
}
/// the sequence is sent, and nothing else happens
pub open spec fn sent(r: R, e: Environment, w: VxWorld, e1: Environment, w1: VxWorld, s: Seq<char>) -> bool { r == R::Ok(Expression::None) && e1 == e && w1 == printed(w, s) }
/// one line of a text, where it goes, with the cursor put back
pub open spec fn row(x: i64, y: i64, s: Seq<char>) -> Seq<char> {
    "\x1b[s\x1b["@ + digits(y) + ";"@ + digits(x) + "H\x1b["@ + digits(y) + ";"@ + digits(x) + "f"@ + s + "\x1b[u"@
}
pub open spec fn rows(x: i64, y: i64, l: Seq<Seq<char>>, i: int) -> Seq<char>
    decreases l.len() - i,
{ if i >= l.len() || i < 0 { Seq::empty() } else { row(x, sat(y + i) as i64, l[i]) + rows(x, y, l, i + 1) } }
pub open spec fn lines_left(s: Seq<(usize, &str)>, l: Seq<Seq<char>>) -> bool {
    s.len() <= l.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == l.len() - s.len() + i && s[i].1@ == l[l.len() - s.len() + i]
}
pub proof fn lemma_texts()
    ensures forall|s: Seq<char>| #[trigger] (s + Seq::<char>::empty()) == s, forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s,
{
    assert forall|s: Seq<char>| #[trigger] (s + Seq::<char>::empty()) == s by { assert(s + Seq::<char>::empty() =~= s); }
    assert forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s by { assert(Seq::<char>::empty() + s =~= s); }
}
} // verus!
verus! {
//@ end
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ file src/binary/init/console_module.rs
//@ fn width
    ensures *final($1) == *old($1), *final(vx_w) == *old(vx_w), r == R::Ok(match size(*old(vx_w)) { Some(q) => Expression::Integer(q.0.0 as i64), None => Expression::None }),
//@ fn height
    ensures *final($1) == *old($1), *final(vx_w) == *old(vx_w), r == R::Ok(match size(*old(vx_w)) { Some(q) => Expression::Integer(q.1.0 as i64), None => Expression::None }),
//@ fn write loops=1
    ensures $0@.len() != 3 ==> r is Err && *final($1) == *old($1) && *final(vx_w) == *old(vx_w),
        $0@.len() == 3 ==> match evals($0@[0], *old($1), *old(vx_w)) {
            (Err(x), e1, w1) => r == R::Err(x) && *final($1) == e1 && *final(vx_w) == w1,
            (Ok(x), e1, w1) => match evals($0@[1], e1, w1) {
                (Err(q), e2, w2) => r == R::Err(q) && *final($1) == e2 && *final(vx_w) == w2,
                (Ok(y), e2, w2) => match evals($0@[2], e2, w2) {
                    (Err(q), e3, w3) => r == R::Err(q) && *final($1) == e3 && *final(vx_w) == w3,
                    (Ok(v), e3, w3) => *final($1) == e3 && match (x, y) {
                        (Expression::Integer(x), Expression::Integer(y)) => r == R::Ok(Expression::None) && *final(vx_w) == printed(w3, rows(x, y, lines_of(display(v)), 0)),
                        _ => r is Err && *final(vx_w) == w3,
                    },
                },
            },
        },
//@ entry
    proof { lemma_texts(); }
//@ before_loop 0
    let ghost gw = *vx_w; let ghost gl = lines_of(content@);
//@ loop 0
    invariant lines_left(vx_it1@, gl), printed(*vx_w, rows(x, y, gl, gl.len() - vx_it1@.len())) == printed(gw, rows(x, y, gl, 0)),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_texts(); reveal_with_fuel(rows, 2); }
//@ fn title
    ensures $0@.len() != 1 ==> r is Err && *final($1) == *old($1) && *final(vx_w) == *old(vx_w),
        $0@.len() == 1 ==> match evals($0@[0], *old($1), *old(vx_w)) {
            (Err(x), e1, w1) => r == R::Err(x) && *final($1) == e1 && *final(vx_w) == w1,
            (Ok(v), e1, w1) => r == R::Ok(Expression::None) && *final($1) == e1 && *final(vx_w) == printed(w1, "\x1b]2;"@ + display(v) + "\x1b[0m"@),
        },
//@ fn clear
    ensures $0@.len() != 1 ==> r is Err && *final($1) == *old($1) && *final(vx_w) == *old(vx_w),
        $0@.len() == 1 ==> sent(r, *old($1), *old(vx_w), *final($1), *final(vx_w), "\x1b[2J\x1b[H"@),
//@ fn closure/move-to name=c_to
    ensures $0@.len() != 2 ==> r is Err && *final($1) == *old($1) && *final(vx_w) == *old(vx_w),
        $0@.len() == 2 ==> match evals($0@[0], *old($1), *old(vx_w)) {
            (Err(x), e1, w1) => r == R::Err(x) && *final($1) == e1 && *final(vx_w) == w1,
            (Ok(x), e1, w1) => match evals($0@[1], e1, w1) {
                (Err(q), e2, w2) => r == R::Err(q) && *final($1) == e2 && *final(vx_w) == w2,
                (Ok(y), e2, w2) => *final($1) == e2 && match (x, y) {
                    (Expression::Integer(x), Expression::Integer(y)) => r == R::Ok(Expression::None) && *final(vx_w) == printed(w2, "\x1b["@ + digits(y) + ";"@ + digits(x) + "f"@),
                    _ => r is Err && *final(vx_w) == w2,
                },
            },
        },
//@ fn closure/move-up name=c_up
    ensures sends(r, $0@, *old($1), *old(vx_w), *final($1), *final(vx_w), "A"@),
//@ fn closure/move-down name=c_down
    ensures sends(r, $0@, *old($1), *old(vx_w), *final($1), *final(vx_w), "B"@),
//@ fn closure/move-left name=c_left
    ensures sends(r, $0@, *old($1), *old(vx_w), *final($1), *final(vx_w), "D"@),
//@ fn closure/move-right name=c_right
    ensures sends(r, $0@, *old($1), *old(vx_w), *final($1), *final(vx_w), "C"@),
//@ fn closure/save-position name=c_save
    ensures sent(r, *old($1), *old(vx_w), *final($1), *final(vx_w), "\x1b[s"@),
//@ fn closure/restore-position name=c_restore
    ensures sent(r, *old($1), *old(vx_w), *final($1), *final(vx_w), "\x1b[u"@),
//@ fn closure/hide name=c_hide
    ensures sent(r, *old($1), *old(vx_w), *final($1), *final(vx_w), "\x1b[?25l"@),
//@ fn closure/show name=c_show
    ensures sent(r, *old($1), *old(vx_w), *final($1), *final(vx_w), "\x1b[?25h"@),
//@ fn closure/alternate name=c_mode_alternate
    ensures sent(r, *old($1), *old(vx_w), *final($1), *final(vx_w), "\x1b[?1049h"@),
//@ fn closure/normal name=c_mode_normal
    ensures sent(r, *old($1), *old(vx_w), *final($1), *final(vx_w), "\x1b[?1049l"@),
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
