//@ include lexbody.vspec
//@ raw
// ---------------------------------------------------------------- terminal escapes
pub trait VxToString { spec fn shown(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.shown(); }
pub trait VxPushStr { fn vx_push_str<S: VxStr + ?Sized>(&mut self, s: &S); }
impl VxPushStr for String {
    #[verifier::external_body]
    fn vx_push_str<S: VxStr + ?Sized>(&mut self, s: &S) ensures final(self)@ == old(self)@ + s.txt() { unimplemented!() }
}
pub trait VxIter<T> { fn vx_iter(&self) -> VxIt<&T>; }
impl<T> VxIter<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIt<&T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { unimplemented!() }
}
impl<T> VxIter<T> for [T] {
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIt<&T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { unimplemented!() }
}
impl<T> VxIter<T> for Box<[T]> {
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIt<&T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { unimplemented!() }
}
impl<'a, T> VxIt<&'a T> {
    #[verifier::external_body]
    pub fn vx_zip<'b, U>(self, o: &'b Vec<U>) -> (r: VxIt<(&'a T, &'b U)>)
        ensures r@.len() == (if self@.len() < o@.len() { self@.len() } else { o@.len() }),
            forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == *self@[i] && *r@[i].1 == o@[i],
    { unimplemented!() }
}
pub open spec fn esc() -> char { '\x1b' }
/// what is left of the text behind the next m
pub open spec fn behind_m(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { s } else if s[0] == 'm' { s.skip(1) } else { behind_m(s.skip(1)) } }
/// the text without its escape sequences: each runs from an escape character through the next m
#[verifier::opaque]
pub open spec fn stripped(s: Seq<char>) -> Seq<char>
    decreases s.len(),
    via stripped_dec
{
    if s.len() == 0 { s } else if s[0] == esc() { stripped(behind_m(s.skip(1))) } else { seq![s[0]] + stripped(s.skip(1)) }
}
pub proof fn lemma_behind(s: Seq<char>)
    ensures behind_m(s).len() <= s.len(),
    decreases s.len(),
{ if s.len() > 0 && s[0] != 'm' { lemma_behind(s.skip(1)); } }
#[via_fn]
proof fn stripped_dec(s: Seq<char>) { if s.len() > 0 { lemma_behind(s.skip(1)); } }
/// contains no escape character
#[verifier::opaque]
pub open spec fn clean(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != esc() }
/// one character at a time: what is kept so far, and whether inside a sequence
pub open spec fn step(z: (Seq<char>, bool), c: char) -> (Seq<char>, bool) {
    if c == esc() { (z.0, true) } else if z.1 { (z.0, c != 'm') } else { (z.0.push(c), false) }
}
#[verifier::opaque]
pub open spec fn fr(s: Seq<char>, z: (Seq<char>, bool)) -> (Seq<char>, bool)
    decreases s.len(),
{ if s.len() == 0 { z } else { fr(s.skip(1), step(z, s[0])) } }
pub proof fn lemma_fr(s: Seq<char>, z: (Seq<char>, bool))
    ensures fr(s, z).0 == z.0 + (if z.1 { stripped(behind_m(s)) } else { stripped(s) }),
    decreases s.len(),
{
    reveal(fr); reveal(stripped);
    if s.len() == 0 { assert(z.0 + s =~= z.0); }
    else {
        let y = step(z, s[0]);
        lemma_fr(s.skip(1), y);
        if !z.1 && s[0] != esc() {
            assert(z.0.push(s[0]) + stripped(s.skip(1)) =~= z.0 + (seq![s[0]] + stripped(s.skip(1))));
        }
    }
}
pub proof fn lemma_fr_add(a: Seq<char>, b: Seq<char>, z: (Seq<char>, bool))
    ensures fr(a + b, z) == fr(b, fr(a, z)),
    decreases a.len(),
{
    reveal(fr);
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_fr_add(a.skip(1), b, step(z, a[0]));
    }
}
pub open spec fn st(s: Seq<char>) -> (Seq<char>, bool) { fr(s, (Seq::empty(), false)) }
/// nothing but complete escape sequences
pub open spec fn seqs_scan(x: Seq<char>, i: nat, e: bool) -> bool
    decreases x.len() - i,
{
    if i >= x.len() { !e } else if x[i as int] == esc() { seqs_scan(x, i + 1, true) }
    else if e { seqs_scan(x, i + 1, x[i as int] != 'm') } else { false }
}
#[verifier::opaque]
pub open spec fn seqs(x: Seq<char>) -> bool { x.len() > 0 && x[0] == esc() ==> seqs_scan(x, 0, false) }
pub proof fn lemma_scan(x: Seq<char>, i: nat, z: (Seq<char>, bool))
    requires seqs_scan(x, i, z.1), i <= x.len(),
    ensures fr(x.skip(i as int), z) == (z.0, false),
    decreases x.len() - i,
{
    reveal(fr);
    if i < x.len() {
        assert(x.skip(i as int).skip(1) =~= x.skip(i as int + 1));
        lemma_scan(x, i + 1, step(z, x[i as int]));
    }
}
pub proof fn lemma_clean(x: Seq<char>, z: (Seq<char>, bool))
    requires clean(x), !z.1,
    ensures fr(x, z) == (z.0 + x, false),
    decreases x.len(),
{
    reveal(fr); reveal(clean);
    if x.len() == 0 { assert(z.0 + x =~= z.0); }
    else {
        assert(clean(x.skip(1)));
        lemma_clean(x.skip(1), step(z, x[0]));
        assert(z.0.push(x[0]) + x.skip(1) =~= z.0 + x);
    }
}
pub mod tm {
    use super::*;
    verus! {
    pub broadcast proof fn b_clean(r: Seq<char>, x: Seq<char>)
        requires !st(r).1, clean(x),
        ensures #[trigger] st(r + x) == (st(r).0 + x, false),
    { lemma_fr_add(r, x, (Seq::empty(), false)); lemma_clean(x, st(r)); }
    pub broadcast proof fn b_seqs(r: Seq<char>, x: Seq<char>)
        requires !st(r).1, x.len() > 0, x[0] == esc(), seqs(x),
        ensures #[trigger] st(r + x) == st(r),
    { reveal(seqs); lemma_fr_add(r, x, (Seq::empty(), false)); lemma_scan(x, 0, st(r)); assert(x.skip(0) =~= x); }
    pub broadcast proof fn b_push(r: Seq<char>, c: char)
        ensures #[trigger] st(r.push(c)) == step(st(r), c),
    { reveal_with_fuel(fr, 3); lemma_fr_add(r, seq![c], (Seq::empty(), false)); assert(r.push(c) =~= r + seq![c]); assert(seq![c].skip(1) =~= Seq::empty()); }
    pub broadcast proof fn b_sub(s: Seq<char>, i: int, j: int)
        requires clean(s), 0 <= i <= j <= s.len(),
        ensures #[trigger] clean(s.subrange(i, j)),
    { reveal(clean); }
    pub broadcast proof fn b_join(s: Seq<char>, i: int, j: int)
        requires 0 <= i <= j <= s.len(),
        ensures #[trigger] (s.subrange(0, i) + s.subrange(i, j)) == s.subrange(0, j),
    { assert(s.subrange(0, i) + s.subrange(i, j) =~= s.subrange(0, j)); }
    pub broadcast proof fn b_cix(s: Seq<char>, a: nat, b: nat)
        requires boundary(s, a), boundary(s, b), a <= b,
        ensures 0 <= #[trigger] cix(s, a) <= #[trigger] cix(s, b) <= s.len(),
    {
        let ka = cix(s, a); let kb = cix(s, b);
        assert(at(s, a, ka)); assert(at(s, b, kb));
        if kb < ka { lemma_bl_take(s, kb, ka); }
    }
    }
}
/// where token `k` of a tiling starts (and the tokens before it end)
pub open spec fn pos(t: Seq<Token>, k: int) -> int { if k == 0 { 0 } else { t[k - 1].range.end as int } }
pub proof fn lemma_tok_facts(s: Seq<char>, t: Token, d: Diagnostic)
    requires tok_at(s, t, d),
    ensures boundary(s, t.range.start as nat), boundary(s, t.range.end as nat), t.range.start < t.range.end, diag_in(s, t.range, d),
{ }
pub proof fn lemma_piece(s: Seq<char>, rs: Seq<StrSlice>, a: int, b: int, j: int)
    requires pieces(s, rs, a, b), 0 <= j < rs.len(),
    ensures boundary(s, rs[j].start as nat), boundary(s, rs[j].end as nat), a <= rs[j].start <= rs[j].end <= b,
        j > 0 ==> rs[j - 1].end <= rs[j].start,
{ assert(piece(s, rs[j], a, b)); }
pub proof fn lemma_pos(s: Seq<char>, t: Seq<Token>, d: Seq<Diagnostic>, b: int)
    requires tiles(s, t, d, 0, b),
    ensures t.len() == d.len(), pos(t, t.len() as int) == b,
        forall|i: int| 0 <= i < t.len() ==> tok_at(s, #[trigger] t[i], d[i]) && t[i].range.start == pos(t, i),
    decreases t.len(),
{
    hide(tok_at);
    reveal(tiles);
    if t.len() > 0 {
        lemma_pos(s, t.drop_last(), d.drop_last(), t.last().range.start as int);
        assert forall|i: int| 0 <= i < t.len() implies tok_at(s, #[trigger] t[i], d[i]) && t[i].range.start == pos(t, i) by {
            if i < t.len() - 1 { assert(t[i] == t.drop_last()[i]); assert(d[i] == d.drop_last()[i]); if i > 0 { assert(t[i - 1] == t.drop_last()[i - 1]); } }
            else if i > 0 { assert(t[i - 1] == t.drop_last()[i - 1]); }
        }
    }
}
//@ end
//@ default strslice
//@ file src/bin.rs
//@ fn strip_ansi_escapes loops=1
    ensures r@ == stripped($0.shown()),
//@ entry
    broadcast use tm::b_push;
    proof { reveal(fr); }
//@ loop 0
        invariant fr(vx_it1@, (result@, is_in_escape)) == st(text@),
        ensures vx_it1@.len() == 0,
        decreases vx_it1@.len(),
//@ loop_start 0
    proof { reveal(fr); }
//@ after_loop 0
    proof { reveal(fr); lemma_fr(text@, (Seq::empty(), false)); assert(Seq::<char>::empty() + stripped(text@) =~= stripped(text@)); }
//@ fn syntax_highlight revealstr litfact=seqs ctx
//@ attrs
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
//@ contract
    ensures clean($0@) ==> stripped(r@) == $0@,
//@ entry
    hide(boundary); hide(cix); hide(at); hide(tok_at); hide(pieces); hide(piece);
    broadcast use {tm::b_clean, tm::b_seqs, tm::b_sub, tm::b_join, tm::b_cix};
    let ghost gs = $0@;
//@ before_loop 0
    let ghost gt = tokens@; let ghost gd = diagnostics@; let ghost mut gk: int = 0;
    proof {
        lemma_pos(gs, gt, gd, bl(gs) as int); lemma_at_ends(gs); lemma_at_unique(gs, 0, 0); lemma_at_unique(gs, bl(gs), gs.len() as int);
        reveal(fr); assert(gs.subrange(0, 0) =~= Seq::empty());
    }
//@ loop 0
        invariant 0 <= gk <= gt.len(), vx_it1@.len() == gt.len() - gk,
            forall|i: int| 0 <= i < vx_it1@.len() ==> *(#[trigger] vx_it1@[i]).0 == gt[gk + i] && *vx_it1@[i].1 == gd[gk + i],
            boundary(gs, pos(gt, gk) as nat),
            clean(gs) ==> st(result@) == (gs.subrange(0, cix(gs, pos(gt, gk) as nat)), false),
        ensures vx_it1@.len() == 0,
        decreases vx_it1@.len(),
//@ loop_start 0
        let ghost it0 = vx_it1@;
        proof { if gk < gt.len() { assert(it0[0].0 == gt[gk]); lemma_tok_facts(gs, gt[gk], gd[gk]); assert(pos(gt, gk + 1) == gt[gk].range.end); } }
//@ loop_end 0
        proof { gk = gk + 1; }
//@ after_loop 0
    proof { assert(gs.subrange(0, gs.len() as int) =~= gs); lemma_at_unique(gs, bl(gs), gs.len() as int); assert(gk == gt.len());
        assert(pos(gt, gk) == bl(gs)); assert(clean(gs) ==> st(result@) == (gs, false)); }
//@ before_loop 1
        let ghost mut gj: int = 0; let ghost rs = ranges@;
//@ loop 1
        invariant 0 <= gj <= rs.len(), vx_it2@.len() == rs.len() - gj,
            forall|i: int| 0 <= i < vx_it2@.len() ==> *(#[trigger] vx_it2@[i]) == rs[gj + i],
            last_end == (if gj == 0 { token.range.start } else { rs[gj - 1].end }), boundary(gs, last_end as nat),
            clean(gs) ==> st(result@) == (gs.subrange(0, cix(gs, last_end as nat)), false),
        ensures vx_it2@.len() == 0,
        decreases vx_it2@.len(),
//@ loop_start 1
        let ghost it1 = vx_it2@;
        proof { if gj < rs.len() { assert(it1[0] == rs[gj]); lemma_piece(gs, rs, token.range.start as int, token.range.end as int, gj); } }
//@ loop_end 1
        proof { gj = gj + 1; }
//@ after_loop 1
        proof { if gj > 0 { lemma_piece(gs, rs, token.range.start as int, token.range.end as int, gj - 1); } }
//@ loop 2
        invariant vx_it3@.len() == 0, clean(gs) ==> st(result@) == (gs, false),
        decreases vx_it3@.len(),
//@ tail
    proof { assert(clean(gs) ==> st(vx_ret@) == (gs, false)); lemma_fr(vx_ret@, (Seq::empty(), false)); assert(Seq::<char>::empty() + stripped(vx_ret@) =~= stripped(vx_ret@)); }
//@ raw
} // verus!
//@ end
//@ include post.vspec
