//@ include pre.vspec
//@ include expr.vspec
//@ include std.vspec
//@ include coll.vspec
//@ include fsbase.vspec
//@ default vclone streq ctx world=eval,exists,is_dir,is_file,is_symlink,symlink_metadata,metadata,try_exists,copy,rename,create_dir,create_dir_all,read_dir,remove_dir,remove_dir_all,remove_file,write,open,write_all,copy_path,move_path,remove_path,fs_mv,fs_cp,fs_rm,fs_mkdir,fs_rmdir,fs_write,fs_append
//@ raw
pub mod u {
use super::*;
verus! {
broadcast use {axw::ax_log, axw::ax_present, axw::ax_isdir, axw::ax_isfile, axl::ax_mkvec, axl::ax_vec_back};
type R = Result<Expression, Error>;
pub type Unit = Result<(), Error>;
/// the operations performed between two states
pub open spec fn since(a: VxWorld, b: VxWorld) -> Seq<Step> { log(b).skip(log(a).len() as int) }
pub open spec fn grew(a: VxWorld, b: VxWorld) -> bool { log(a).len() <= log(b).len() && log(b).take(log(a).len() as int) == log(a) }
/// the path an operation writes to
pub open spec fn target(op: Op) -> Option<Seq<char>> {
    match op {
        Op::Copy(_, p) => Some(p), Op::Rename(_, p) => Some(p), Op::CreateDir(p) => Some(p), Op::CreateDirs(p) => Some(p),
        Op::RemoveDir(p) => Some(p), Op::RemoveDirAll(p) => Some(p), Op::RemoveFile(p) => Some(p), Op::Write(p, _) => Some(p), Op::WriteOn(p, _) => Some(p),
        Op::ReadDir(_) => None, Op::Open(p, m) => if m.truncate || m.create { Some(p) } else { None },
    }
}
/// `p` is `top`, or lies below it
pub open spec fn below(p: Seq<char>, top: Seq<char>, k: nat) -> bool
    decreases k,
{ p == top || (k > 0 && exists|q: Seq<char>, n: Seq<char>| p == #[trigger] joined(q, n) && below(q, top, (k - 1) as nat)) }
pub open spec fn within(p: Seq<char>, top: Seq<char>) -> bool { exists|k: nat| below(p, top, k) }
/// a copy writes only below the destination, only what was not there, and only creates or copies
pub open spec fn careful(s: Step, src: Seq<char>, dst: Seq<char>) -> bool {
    match s.op {
        Op::Copy(a, p) => within(a, src) && within(p, dst) && !present(s.w, p),
        Op::CreateDir(p) => within(p, dst) && !present(s.w, p),
        Op::CreateDirs(p) => within(p, dst) && !present(s.w, p),
        Op::ReadDir(p) => within(p, src),
        _ => false,
    }
}
/// nothing went wrong: the operation succeeded, and every entry of a directory read was readable
pub open spec fn fine(s: Step) -> bool {
    s.ok && match s.op { Op::ReadDir(p) => forall|i: int| 0 <= i < listing(s.w, p).len() ==> (#[trigger] listing(s.w, p)[i]) is Some, _ => true }
}
pub open spec fn all_careful(s: Seq<Step>, src: Seq<char>, dst: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> careful(#[trigger] s[i], src, dst) }
pub open spec fn all_fine(s: Seq<Step>) -> bool { forall|i: int| 0 <= i < s.len() ==> fine(#[trigger] s[i]) }
/// something was put at `p`
pub open spec fn made(s: Seq<Step>, p: Seq<char>) -> bool { exists|j: int| 0 <= j < s.len() && target((#[trigger] s[j]).op) == Some(p) }
pub open spec fn put(s: Seq<Step>, src: Seq<char>, dst: Seq<char>, n: Option<Seq<char>>) -> bool {
    n is Some ==> same_path(joined(src, n->Some_0), joined(dst, n->Some_0)) || made(s, joined(dst, n->Some_0))
}
/// the directory was read, and something was put at the destination for each of its entries
pub open spec fn whole(s: Seq<Step>, j: int, src: Seq<char>, dst: Seq<char>) -> bool {
    s[j].op == Op::ReadDir(src) && forall|i: int| 0 <= i < listing(s[j].w, src).len() ==> put(s, src, dst, #[trigger] listing(s[j].w, src)[i])
}
pub open spec fn complete(s: Seq<Step>, src: Seq<char>, dst: Seq<char>, dir: bool) -> bool {
    made(s, dst) && (dir ==> exists|j: int| 0 <= j < s.len() && #[trigger] whole(s, j, src, dst))
}
/// what `copy_path` may do
pub open spec fn copies(src: Seq<char>, dst: Seq<char>, a: VxWorld, ok: bool, b: VxWorld) -> bool {
    if same_path(src, dst) { ok && b == a }
    else if present(a, dst) { !ok && b == a }
    else { grew(a, b) && all_careful(since(a, b), src, dst) && (ok ==> all_fine(since(a, b)) && complete(since(a, b), src, dst, isdir(a, src))) }
}
/// what `move_path` does
pub open spec fn moves(src: Seq<char>, dst: Seq<char>, a: VxWorld, ok: bool, b: VxWorld) -> bool {
    if same_path(src, dst) { ok && b == a }
    else if present(a, dst) { !ok && b == a }
    else { b == done(a, Op::Rename(src, dst)) && (ok <==> succeeds(a, Op::Rename(src, dst))) }
}
/// exactly one operation was performed, and its failure is reported
pub open spec fn performs(op: Op, a: VxWorld, r: bool, b: VxWorld) -> bool { b == done(a, op) && (r <==> succeeds(a, op)) }
/// what `remove_path` does
pub open spec fn removes(p: Seq<char>, a: VxWorld, r: bool, b: VxWorld) -> bool {
    performs(if isdir(a, p) { Op::RemoveDirAll(p) } else { Op::RemoveFile(p) }, a, r, b)
}
// ---------------------------------------------------------------- copying, step by step
pub proof fn lemma_within(p: Seq<char>)
    ensures within(p, p), forall|n: Seq<char>| within(#[trigger] joined(p, n), p),
{
    assert(below(p, p, 0));
    assert forall|n: Seq<char>| within(#[trigger] joined(p, n), p) by { assert(below(joined(p, n), p, 1)); }
}
pub proof fn lemma_below(p: Seq<char>, top: Seq<char>, n: Seq<char>, k: nat)
    requires below(p, joined(top, n), k),
    ensures below(p, top, k + 1),
    decreases k,
{
    if p == joined(top, n) { assert(below(top, top, k)); }
    else {
        let (q, m) = choose|q: Seq<char>, m: Seq<char>| p == #[trigger] joined(q, m) && below(q, joined(top, n), (k - 1) as nat);
        lemma_below(q, top, n, (k - 1) as nat);
    }
}
pub proof fn lemma_deeper(p: Seq<char>, top: Seq<char>, n: Seq<char>)
    requires within(p, joined(top, n)),
    ensures within(p, top),
{
    let k = choose|k: nat| below(p, joined(top, n), k);
    lemma_below(p, top, n, k);
}
pub proof fn lemma_grew(a: VxWorld, b: VxWorld, c: VxWorld)
    requires grew(a, b), grew(b, c),
    ensures grew(a, c), since(a, c) == since(a, b) + since(b, c),
{
    assert(log(c).take(log(a).len() as int) =~= log(c).take(log(b).len() as int).take(log(a).len() as int));
    assert(since(a, c) =~= since(a, b) + since(b, c)) by {
        assert forall|i: int| 0 <= i < since(a, c).len() implies since(a, c)[i] == (since(a, b) + since(b, c))[i] by {
            if i < since(a, b).len() { assert(log(c).take(log(b).len() as int)[i + log(a).len()] == log(b)[i + log(a).len()]); }
        }
    }
}
/// one more operation
pub proof fn lemma_op(a: VxWorld, op: Op)
    ensures grew(a, done(a, op)), since(a, done(a, op)) == seq![Step { op, w: a, ok: succeeds(a, op) }],
{
    let b = done(a, op);
    assert(log(b).take(log(a).len() as int) =~= log(a));
    assert(since(a, b) =~= seq![Step { op, w: a, ok: succeeds(a, op) }]);
}
/// the entries read so far were copied
pub open spec fn put_all(s: Seq<Step>, src: Seq<char>, dst: Seq<char>, l: Seq<Option<Seq<char>>>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> (#[trigger] l[i]) is Some && put(s, src, dst, l[i])
}
/// w1 is the state before the directory was read, w2 the one after
pub open spec fn in_copy(a: VxWorld, w1: VxWorld, w2: VxWorld, b: VxWorld, src: Seq<char>, dst: Seq<char>, l: Seq<Option<Seq<char>>>, k: int) -> bool {
    &&& grew(a, w2) && grew(w2, b) && since(a, w2).len() > 0 && since(a, w2).last() == (Step { op: Op::ReadDir(src), w: w1, ok: true }) && l == listing(w1, src)
    &&& all_careful(since(a, w2), src, dst) && all_fine(since(a, w2).drop_last()) && made(since(a, w2), dst)
    &&& all_careful(since(w2, b), src, dst) && all_fine(since(w2, b)) && put_all(since(w2, b), src, dst, l, k)
}
pub proof fn lemma_made(s: Seq<Step>, t: Seq<Step>, p: Seq<char>)
    requires made(s, p) || made(t, p),
    ensures made(s + t, p),
{
    if made(s, p) { let j = choose|j: int| 0 <= j < s.len() && target((#[trigger] s[j]).op) == Some(p); assert((s + t)[j] == s[j]); }
    else { let j = choose|j: int| 0 <= j < t.len() && target((#[trigger] t[j]).op) == Some(p); assert((s + t)[s.len() + j] == t[j]); }
}
/// the directory is there and was read; nothing copied yet
pub proof fn lemma_first(a: VxWorld, src: Seq<char>, dst: Seq<char>, op: Op)
    requires op == Op::CreateDirs(dst) || op == Op::CreateDir(dst), !present(a, dst), succeeds(a, op),
    ensures ({ let w1 = done(a, op); let w2 = done(w1, Op::ReadDir(src));
        (succeeds(w1, Op::ReadDir(src)) ==> in_copy(a, w1, w2, w2, src, dst, listing(w1, src), 0)) && grew(a, w2) && all_careful(since(a, w2), src, dst) }),
{
    let w1 = done(a, op); let w2 = done(w1, Op::ReadDir(src));
    lemma_within(src); lemma_within(dst);
    lemma_op(a, op); lemma_op(w1, Op::ReadDir(src)); lemma_grew(a, w1, w2);
    let s = since(a, w2);
    assert(s =~= seq![Step { op, w: a, ok: true }, Step { op: Op::ReadDir(src), w: w1, ok: succeeds(w1, Op::ReadDir(src)) }]);
    assert(target(s[0].op) == Some(dst));
    assert(s.drop_last() =~= seq![s[0]]);
    assert(since(w2, w2) =~= Seq::empty());
    assert(log(w2).take(log(w2).len() as int) =~= log(w2));
}
/// one more entry
pub proof fn lemma_entry(a: VxWorld, w1: VxWorld, w2: VxWorld, b: VxWorld, c: VxWorld, src: Seq<char>, dst: Seq<char>, l: Seq<Option<Seq<char>>>, k: int, n: Seq<char>, ok: bool)
    requires in_copy(a, w1, w2, b, src, dst, l, k), 0 <= k < l.len(), l[k] == Some(n), copies(joined(src, n), joined(dst, n), b, ok, c),
    ensures grew(a, c), all_careful(since(a, c), src, dst), ok ==> in_copy(a, w1, w2, c, src, dst, l, k + 1),
{
    if c == b { assert(since(b, b) =~= Seq::empty()); assert(grew(b, c)) by { assert(log(b).take(log(b).len() as int) =~= log(b)); } }
    let s = since(w2, b); let t = since(b, c);
    assert forall|i: int| 0 <= i < t.len() implies careful(#[trigger] t[i], src, dst) by {
        assert(careful(t[i], joined(src, n), joined(dst, n)));
        match t[i].op {
            Op::Copy(x, p) => { lemma_deeper(x, src, n); lemma_deeper(p, dst, n); }
            Op::CreateDir(p) => { lemma_deeper(p, dst, n); }
            Op::CreateDirs(p) => { lemma_deeper(p, dst, n); }
            Op::ReadDir(p) => { lemma_deeper(p, src, n); }
            _ => {}
        }
    }
    lemma_grew(w2, b, c); lemma_grew(a, w2, c);
    assert forall|i: int| 0 <= i < k + 1 && ok implies (#[trigger] l[i]) is Some && put(s + t, src, dst, l[i]) by {
        let m = l[i]->Some_0;
        if i < k { assert(put(s, src, dst, l[i])); if made(s, joined(dst, m)) { lemma_made(s, t, joined(dst, m)); } }
        else if made(t, joined(dst, m)) { lemma_made(s, t, joined(dst, m)); }
    }
}
/// any outcome of copying any entry
pub proof fn lemma_entries(a: VxWorld, w1: VxWorld, w2: VxWorld, b: VxWorld, src: Seq<char>, dst: Seq<char>, l: Seq<Option<Seq<char>>>, k: int)
    requires in_copy(a, w1, w2, b, src, dst, l, k), 0 <= k < l.len(),
    ensures forall|n: Seq<char>, ok: bool, c: VxWorld| l[k] == Some(n) && #[trigger] copies(joined(src, n), joined(dst, n), b, ok, c)
            ==> grew(a, c) && all_careful(since(a, c), src, dst) && (ok ==> in_copy(a, w1, w2, c, src, dst, l, k + 1)),
        grew(a, b), all_careful(since(a, b), src, dst),
{
    lemma_grew(a, w2, b);
    assert forall|n: Seq<char>, ok: bool, c: VxWorld| l[k] == Some(n) && #[trigger] copies(joined(src, n), joined(dst, n), b, ok, c)
            implies grew(a, c) && all_careful(since(a, c), src, dst) && (ok ==> in_copy(a, w1, w2, c, src, dst, l, k + 1)) by {
        lemma_entry(a, w1, w2, b, c, src, dst, l, k, n, ok);
    }
}
pub proof fn lemma_last(a: VxWorld, w1: VxWorld, w2: VxWorld, b: VxWorld, src: Seq<char>, dst: Seq<char>, l: Seq<Option<Seq<char>>>)
    requires in_copy(a, w1, w2, b, src, dst, l, l.len() as int),
    ensures grew(a, b), all_careful(since(a, b), src, dst), all_fine(since(a, b)), complete(since(a, b), src, dst, true),
{
    lemma_grew(a, w2, b);
    let s = since(a, w2); let t = since(w2, b); let j = s.len() - 1;
    lemma_made(s, t, dst);
    assert((s + t)[j] == s.last());
    assert forall|i: int| 0 <= i < s.len() implies fine(#[trigger] s[i]) by { if i < j { assert(s.drop_last()[i] == s[i]); assert(fine(s.drop_last()[i])); } }
    assert forall|i: int| 0 <= i < l.len() implies put(s + t, src, dst, #[trigger] l[i]) by {
        assert(put(t, src, dst, l[i]));
        let m = l[i]->Some_0;
        if made(t, joined(dst, m)) { lemma_made(s, t, joined(dst, m)); }
    }
    assert(whole(s + t, j, src, dst));
}
/// a single operation that failed, or the copy of a file
pub proof fn lemma_one(a: VxWorld, src: Seq<char>, dst: Seq<char>, op: Op)
    requires op == Op::Copy(src, dst) || op == Op::CreateDirs(dst) || op == Op::CreateDir(dst), !present(a, dst),
    ensures ({ let b = done(a, op); grew(a, b) && all_careful(since(a, b), src, dst)
        && (succeeds(a, op) ==> all_fine(since(a, b)) && complete(since(a, b), src, dst, false)) }),
{
    lemma_op(a, op); lemma_within(src); lemma_within(dst);
    let s = since(a, done(a, op));
    assert(target(s[0].op) == Some(dst));
}
// ---------------------------------------------------------------- arguments
pub type Sw = (Environment, VxWorld);
/// the text of the value of one argument, and what follows
pub open spec fn text1(x: Expression, s: Sw) -> (Result<Seq<char>, Error>, Sw) {
    let (r, e, w) = evals(x, s.0, s.1);
    (match r { Ok(v) => Ok(display(v)), Err(x) => Err(x) }, (e, w))
}
pub open spec fn refused(n: nat, a: Seq<Expression>, r: R, s: Sw, t: Sw) -> bool { a.len() != n && r is Err && s == t }
pub open spec fn nothing(r: R) -> bool { r is Ok && r->Ok_0 is None }
/// a builtin of one path
pub open spec fn one_path(a: Seq<Expression>, s: Sw, r: R, t: Sw, f: spec_fn(Seq<char>, VxWorld, bool, VxWorld) -> bool) -> bool {
    if a.len() != 1 { r is Err && t == s }
    else { match text1(a[0], s) {
        (Err(x), u) => r == R::Err(x) && t == u,
        (Ok(p), u) => t.0 == u.0 && f(joined(cwd(s.0), p), u.1, r is Ok, t.1) && (r is Ok ==> nothing(r)),
    } }
}
/// a builtin of two paths
pub open spec fn two_paths(a: Seq<Expression>, s: Sw, r: R, t: Sw, f: spec_fn(Seq<char>, Seq<char>, VxWorld, bool, VxWorld) -> bool) -> bool {
    if a.len() != 2 { r is Err && t == s }
    else { match text1(a[0], s) {
        (Err(x), u) => r == R::Err(x) && t == u,
        (Ok(p), u) => match text1(a[1], u) {
            (Err(x), v) => r == R::Err(x) && t == v,
            (Ok(q), v) => t.0 == v.0 && f(joined(cwd(s.0), p), joined(cwd(s.0), q), v.1, r is Ok, t.1) && (r is Ok ==> nothing(r)),
        },
    } }
}
pub open spec fn bytes(v: Expression) -> Content { match v { Expression::Bytes(b) => b@, _ => utf8(display(v)) } }
/// the path, then the contents, then one write; None when it went well
pub open spec fn writes(a: Seq<Expression>, s: Sw, r: R, t: Sw) -> bool {
    match text1(a[0], s) {
        (Err(x), u) => r == R::Err(x) && t == u,
        (Ok(p), u) => match evals(a[1], u.0, u.1) {
            (Err(x), e, w) => r == R::Err(x) && t == (e, w),
            (Ok(v), e, w) => t.0 == e && performs(Op::Write(joined(cwd(s.0), p), bytes(v)), w, r is Ok, t.1) && (r is Ok ==> nothing(r)),
        },
    }
}
pub spec const ADDING: Mode = Mode { append: true, write: false, create: false, truncate: false };
/// the path, then the file opened for appending, then the contents, then one write to it
pub open spec fn appends(a: Seq<Expression>, s: Sw, r: R, t: Sw) -> bool {
    match text1(a[0], s) {
        (Err(x), u) => r == R::Err(x) && t == u,
        (Ok(q), u) => {
            let p = joined(cwd(s.0), q); let w0 = done(u.1, Op::Open(p, ADDING));
            if !succeeds(u.1, Op::Open(p, ADDING)) { r is Err && t == (u.0, w0) }
            else { match evals(a[1], u.0, w0) {
                (Err(x), e, w) => r == R::Err(x) && t == (e, w),
                (Ok(v), e, w) => t.0 == e && performs(Op::WriteOn(p, bytes(v)), w, r is Ok, t.1) && (r is Ok ==> nothing(r)),
            } }
        },
    }
}
} // verus!
verus! {
//@ end
//@ file src/env.rs
//@ assume Environment::get_cwd
    ensures r@ == cwd(*self),
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ file src/binary/init/fs_module.rs
//@ fn copy_path loops=1
//@ attrs
    #[verifier::exec_allows_no_decreases_clause]
//@ contract
    ensures copies($0@, $1@, *old(vx_w), r is Ok, *final(vx_w)),
//@ entry
    let ghost gw = *vx_w; let ghost gd = done(gw, Op::CreateDirs($1@)); let ghost ge = done(gd, Op::ReadDir($0@)); let ghost gl = listing(gd, $0@);
    proof {
        if !present(gw, $1@) {
            lemma_one(gw, $0@, $1@, Op::Copy($0@, $1@)); lemma_one(gw, $0@, $1@, Op::CreateDirs($1@));
            if succeeds(gw, Op::CreateDirs($1@)) { lemma_first(gw, $0@, $1@, Op::CreateDirs($1@)); }
        }
    }
//@ loop 0
    invariant vx_it1@.len() <= gl.len(), in_copy(gw, gd, ge, *vx_w, $0@, $1@, gl, gl.len() - vx_it1@.len()), lists(vx_it1@, gl.skip(gl.len() - vx_it1@.len()), $0@),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ loop_start 0
    let ghost gk = gl.len() - vx_it1@.len();
    proof { if vx_it1@.len() > 0 { lemma_entries(gw, gd, ge, *vx_w, $0@, $1@, gl, gk); assert(gl.skip(gk)[0] == gl[gk]); assert(gl.skip(gk).skip(1) =~= gl.skip(gk + 1)); } }
//@ after_loop 0
    proof { lemma_last(gw, gd, ge, *vx_w, $0@, $1@, gl); }
//@ fn move_path
    ensures moves($0@, $1@, *old(vx_w), r is Ok, *final(vx_w)),
//@ fn remove_path
    ensures removes($0@, *old(vx_w), r is Ok, *final(vx_w)),
//@ fn closure/mv name=fs_mv
    ensures two_paths($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w)), |p, q, a, ok, b| moves(p, q, a, ok, b)),
//@ fn closure/cp name=fs_cp
    ensures two_paths($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w)), |p, q, a, ok, b| copies(p, q, a, ok, b)),
//@ fn closure/rm name=fs_rm
    ensures one_path($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w)), |p, a, ok, b| removes(p, a, ok, b)),
//@ fn closure/mkdir name=fs_mkdir
    ensures one_path($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w)), |p, a, ok, b| performs(Op::CreateDirs(p), a, ok, b)),
//@ fn closure/rmdir name=fs_rmdir
    ensures one_path($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w)), |p, a, ok, b| performs(Op::RemoveDir(p), a, ok, b)),
//@ fn closure/write name=fs_write
    ensures $0@.len() != 2 ==> r is Err && *final($1) == *old($1) && *final(vx_w) == *old(vx_w),
        $0@.len() == 2 ==> writes($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w))),
//@ fn closure/append name=fs_append
    ensures $0@.len() != 2 ==> r is Err && *final($1) == *old($1) && *final(vx_w) == *old(vx_w),
        $0@.len() == 2 ==> appends($0@, (*old($1), *old(vx_w)), r, (*final($1), *final(vx_w))),
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
