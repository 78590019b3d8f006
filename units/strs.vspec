//@ include strpre.vspec
//@ default vclone ctx arith strslice ren=starts_with,push_str,is_whitespace,is_alphabetic,is_alphanumeric,is_numeric,is_lowercase,is_uppercase,is_ascii_lowercase,is_ascii_uppercase,is_ascii_alphabetic
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ fn check_args_len
    ensures r is Ok <==> expected_len.within(args@.len() as usize),
//@ file src/binary/init/string_module.rs
//@ fn closure/to-string name=s_show
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) { Err(x) => r == R::Err(x), Ok(v) => r is Ok && is_text(r->Ok_0, display(v)) },
//@ fn closure/caesar name=s_caesar loops=1
    ensures !(1 <= $0@.len() <= 2) ==> r is Err,
        1 <= $0@.len() <= 2 ==> match evals($0@[0], *old($1)) {
            (Err(x), _) => r == R::Err(x),
            (Ok(v), e1) => match (if $0@.len() == 2 { ev($0@[1], e1) } else { Ok(Expression::Integer(13)) }) {
                Err(x) => r == R::Err(x),
                Ok(k) => match text_of(v) {
                    Some(s) if k is Integer => r is Ok && r->Ok_0 is String && ciphered(s, r->Ok_0->String_0@, k->Integer_0 as int),
                    _ => no_text(r, true),
                },
            },
        },
//@ before_loop 0
    let ghost gs = vx_it1@;
    proof { lemma_ciphered(gs, result@, i as int); assert(gs.take(0) =~= Seq::empty()); assert(result@ =~= Seq::empty()); }
//@ loop 0
    invariant gs == x@, result@.len() + vx_it1@.len() == gs.len(), vx_it1@ =~= gs.skip(result@.len() as int),
        ciphered(gs.take(result@.len() as int), result@, i as int),
    decreases vx_it1@.len(),
//@ loop_start 0
    proof {
        lemma_ciphered(gs, result@, i as int);
        if vx_it1@.len() > 0 { lemma_moved(vx_it1@[0], i as int); } else { assert(gs.take(gs.len() as int) =~= gs); }
    }
//@ fn closure/get-width name=s_width loops=1
    ensures $0@.len() != 1 ==> r is Err,
        $0@.len() == 1 ==> match ev($0@[0], *old($1)) {
            Err(x) => r == R::Err(x),
            Ok(v) => r == R::Ok(Expression::Integer(match text_of(v) { Some(s) => widest(s, 0) as i64, None => 0 })),
        },
//@ before_loop 0
    let ghost gs = vx_it1@;
    proof { lemma_bl_pos(gs); lemma_widest(gs, 0); }
//@ loop 0
    invariant gs.len() <= i64::MAX, 0 <= iv(width), 0 <= iv(max_width), iv(width) + vx_it1@.len() <= gs.len(), iv(max_width) <= gs.len(),
        larger(iv(max_width), widest(vx_it1@, iv(width))) == widest(gs, 0),
    ensures larger(iv(max_width), iv(width)) == widest(gs, 0),
    decreases vx_it1@.len(),
//@ fn closure/is-whitespace? name=s_space loops=1
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| x == Expression::Boolean(each(Cls::Space, s))),
//@ before_loop 0
    let ghost gs = vx_it1@;
//@ loop 0
    invariant vx_out1, each(Cls::Space, vx_it1@) == each(Cls::Space, gs),
    ensures vx_out1 == each(Cls::Space, gs),
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_each(Cls::Space, vx_it1@); }
//@ fn closure/is-alpha? name=s_alpha loops=1
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| x == Expression::Boolean(each(Cls::Alpha, s))),
//@ before_loop 0
    let ghost gs = vx_it1@;
//@ loop 0
    invariant vx_out1, each(Cls::Alpha, vx_it1@) == each(Cls::Alpha, gs),
    ensures vx_out1 == each(Cls::Alpha, gs),
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_each(Cls::Alpha, vx_it1@); }
//@ fn closure/is-alphanumeric? name=s_alnum loops=1
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| x == Expression::Boolean(each(Cls::Alnum, s))),
//@ before_loop 0
    let ghost gs = vx_it1@;
//@ loop 0
    invariant vx_out1, each(Cls::Alnum, vx_it1@) == each(Cls::Alnum, gs),
    ensures vx_out1 == each(Cls::Alnum, gs),
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_each(Cls::Alnum, vx_it1@); }
//@ fn closure/is-numeric? name=s_num loops=1
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| x == Expression::Boolean(each(Cls::Num, s))),
//@ before_loop 0
    let ghost gs = vx_it1@;
//@ loop 0
    invariant vx_out1, each(Cls::Num, vx_it1@) == each(Cls::Num, gs),
    ensures vx_out1 == each(Cls::Num, gs),
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_each(Cls::Num, vx_it1@); }
//@ fn closure/is-lower name=s_islow loops=1
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| x == Expression::Boolean(each(Cls::Low, s))),
//@ before_loop 0
    let ghost gs = vx_it1@;
//@ loop 0
    invariant vx_out1, each(Cls::Low, vx_it1@) == each(Cls::Low, gs),
    ensures vx_out1 == each(Cls::Low, gs),
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_each(Cls::Low, vx_it1@); }
//@ fn closure/is-upper name=s_isup loops=1
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| x == Expression::Boolean(each(Cls::Up, s))),
//@ before_loop 0
    let ghost gs = vx_it1@;
//@ loop 0
    invariant vx_out1, each(Cls::Up, vx_it1@) == each(Cls::Up, gs),
    ensures vx_out1 == each(Cls::Up, gs),
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { lemma_each(Cls::Up, vx_it1@); }
//@ fn closure/to-lower name=s_lower
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| is_text(x, lower(s))),
//@ fn closure/to-upper name=s_upper
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| is_text(x, upper(s))),
//@ fn closure/to-title name=s_title loops=1
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| is_text(x, titled(s, true))),
//@ before_loop 0
    let ghost gs = vx_it1@;
//@ loop 0
    invariant title@ + titled(vx_it1@, capitalize) =~= titled(gs, true),
    ensures title@ =~= titled(gs, true),
    decreases vx_it1@.len(),
//@ fn closure/is-title name=s_istitle loops=1 streq
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| x == Expression::Boolean(s =~= titled(s, true))),
//@ before_loop 0
    let ghost gs = vx_it1@;
//@ loop 0
    invariant title@ + titled(vx_it1@, capitalize) =~= titled(gs, true),
    ensures title@ =~= titled(gs, true),
    decreases vx_it1@.len(),
//@ fn split name=s_split loops=1
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match evals($0@[0], *old($1)) {
            (Err(x), _) => r == R::Err(x),
            (Ok(v), e1) => match ev($0@[1], e1) {
                Err(x) => r == R::Err(x),
                Ok(w) => match (text_of(v), text_of(w)) { (Some(s), Some(t)) => r is Ok && is_texts(r->Ok_0, pieces(t, s)), _ => r is Err },
            },
        },
//@ before_loop 0
    let ghost gt = texts(vx_it1@);
    proof { assert(texts(vx_it1@) =~= gt); }
//@ loop 0
    invariant left_of(vx_it1@, gt, v@.len() as int), done(v@, gt),
    ensures done(v@, gt), v@.len() == gt.len(),
    decreases vx_it1@.len(),
//@ fn closure/join name=s_join loops=1
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match evals($0@[0], *old($1)) {
            (Err(x), _) => r == R::Err(x),
            (Ok(v), e1) => match ev($0@[1], e1) {
                Err(x) => r == R::Err(x),
                Ok(w) => if v is List { r is Ok && is_text(r->Ok_0, joined_from(v->List_0@, display(w), true)) } else { no_text(r, true) },
            },
        },
//@ before_loop 0
    let ghost gl = list@;
    let ghost goal = joined_from(gl, display(separator), true);
    proof { assert(gl.skip(0) =~= gl); assert(Seq::<char>::empty() + goal =~= goal); }
//@ loop 0
    invariant gl == list@, 0 <= gn(vx_it1@, gl) <= gl.len(), numbered(vx_it1@, gl),
        joined@ + joined_from(gl.skip(gn(vx_it1@, gl)), display(separator), gn(vx_it1@, gl) == 0) =~= goal,
    ensures joined@ =~= goal,
    decreases vx_it1@.len(),
//@ loop_start 0
    proof { if vx_it1@.len() > 0 { let k = gn(vx_it1@, gl); assert(gl.skip(k).skip(1) =~= gl.skip(k + 1)); assert(gl.skip(k)[0] == gl[k]); } }
//@ fn closure/lines name=s_lines loops=1
    ensures of_text(r, $0@, *old($1), true, |s: Seq<char>, x: Expression| is_texts(x, lines_of(s))),
//@ before_loop 0
    let ghost gt = texts(vx_it1@);
    proof { assert(texts(vx_it1@) =~= gt); }
//@ loop 0
    invariant left_of(vx_it1@, gt, vx_out1@.len() as int), done(vx_out1@, gt),
    ensures done(vx_out1@, gt), vx_out1@.len() == gt.len(),
    decreases vx_it1@.len(),
//@ fn closure/chars name=s_chars loops=1
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| is_texts(x, single(s))),
//@ before_loop 0
    let ghost gs = vx_it1@;
//@ loop 0
    invariant vx_it1@.len() + vx_out1@.len() == gs.len(), vx_it1@ =~= gs.skip(vx_out1@.len() as int), done(vx_out1@, single(gs)),
    ensures done(vx_out1@, single(gs)), vx_out1@.len() == gs.len(),
    decreases vx_it1@.len(),
//@ fn closure/words name=s_words loops=1
    ensures of_text(r, $0@, *old($1), true, |s: Seq<char>, x: Expression| is_texts(x, words_of(s))),
//@ before_loop 0
    let ghost gt = texts(vx_it1@);
    proof { assert(texts(vx_it1@) =~= gt); }
//@ loop 0
    invariant left_of(vx_it1@, gt, vx_out1@.len() as int), done(vx_out1@, gt),
    ensures done(vx_out1@, gt), vx_out1@.len() == gt.len(),
    decreases vx_it1@.len(),
//@ fn closure/paragraphs name=s_paragraphs loops=1
    ensures of_text(r, $0@, *old($1), true, |s: Seq<char>, x: Expression| is_texts(x, pieces(s, "\n\n"@))),
//@ before_loop 0
    let ghost gt = texts(vx_it1@);
    proof { assert(texts(vx_it1@) =~= gt); }
//@ loop 0
    invariant left_of(vx_it1@, gt, vx_out1@.len() as int), done(vx_out1@, gt),
    ensures done(vx_out1@, gt), vx_out1@.len() == gt.len(),
    decreases vx_it1@.len(),
//@ fn closure/split-at name=s_splitat
    ensures $0@.len() != 2 ==> r is Err,
        $0@.len() == 2 ==> match evals($0@[0], *old($1)) {
            (Err(x), _) => r == R::Err(x),
            (Ok(v), e1) => match ev($0@[1], e1) {
                Err(x) => r == R::Err(x),
                Ok(k) => match text_of(v) {
                    Some(s) if k is Integer => {
                        let n = k->Integer_0;
                        if n >= 0 && boundary(s, n as nat) { r is Ok && is_texts(r->Ok_0, seq![s.take(cix(s, n as nat)), s.skip(cix(s, n as nat))]) } else { r is Err }
                    },
                    _ => no_text(r, true),
                },
            },
        },
//@ fn closure/trim name=s_trim
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| is_text(x, trimmed(s))),
//@ fn closure/trim-start name=s_trims
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| is_text(x, trimmed_start(s))),
//@ fn closure/trim-end name=s_trime
    ensures of_text(r, $0@, *old($1), false, |s: Seq<char>, x: Expression| is_text(x, trimmed_end(s))),
//@ fn closure/replace name=s_replace
    ensures $0@.len() != 3 ==> r is Err,
        $0@.len() == 3 ==> match evals($0@[0], *old($1)) {
            (Err(x), _) => r == R::Err(x),
            (Ok(v), e1) => match evals($0@[1], e1) {
                (Err(x), _) => r == R::Err(x),
                (Ok(a), e2) => match ev($0@[2], e2) {
                    Err(x) => r == R::Err(x),
                    Ok(b) => match text_of(v) { Some(s) => r is Ok && is_text(r->Ok_0, replaced(s, display(a), display(b))), None => no_text(r, true) },
                },
            },
        },
//@ fn closure/starts-with? name=s_starts
    ensures of_text2(r, $0@, *old($1), |s: Seq<char>, p: Seq<char>, x: Expression| x == Expression::Boolean(starts(s, p))),
//@ fn closure/ends-with? name=s_ends
    ensures of_text2(r, $0@, *old($1), |s: Seq<char>, p: Seq<char>, x: Expression| x == Expression::Boolean(ends(s, p))),
//@ fn closure/contains? name=s_contains
    ensures of_text2(r, $0@, *old($1), |s: Seq<char>, p: Seq<char>, x: Expression| x == Expression::Boolean(holds(s, p))),
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
