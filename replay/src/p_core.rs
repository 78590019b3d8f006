//! The functions every scope has: sizes, conversions, insertion, keys and values, lines,
//! evaluation in a scope of its own and in this one, names taken out of the scope.
use super::p_arith::{same, value};
use super::p_lib::*;
use super::util::*;
use dune::{Environment, Error, Expression as X};
use std::collections::BTreeMap;

const TEXTS: &[&str] = &["", "a", "abc", "é", "日本é", "a\nb", "a\r\nb\n", "\n", "\n\nx", "é\n日", "12", "-7", "+3", " 4", "4 ", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "0x10", "1.5", "-", "+", "--1", "1_0", "٣", "007", "\u{1}", "tab\there", "x\ry", "last\r"];
fn text(r: &mut Rng) -> String {
    if r.one_in(3) { r.pick(TEXTS).to_string() } else { (0..r.below(7)).map(|_| *r.pick(&['a', 'é', '日', '\n', '\r', '1', '-', ' ', '😀'])).collect() }
}
fn map(r: &mut Rng) -> BTreeMap<String, X> {
    (0..r.below(6)).map(|_| (r.pick(&["a", "b", "é", "", "zz", "A", "10", "9"]).to_string(), data(r, 1))).collect()
}
fn number(s: &str) -> Option<i64> {
    let (neg, d) = match s.chars().next() { Some('-') => (true, &s[1..]), Some('+') => (false, &s[1..]), _ => (false, s) };
    if d.is_empty() { return None; }
    let mut n: i128 = 0;
    for c in d.chars() {
        if !('0'..='9').contains(&c) { return None; }
        n = n * 10 + (c as u32 - '0' as u32) as i128;
        if n > 1 << 64 { return None; }
    }
    if neg { n = -n; }
    if n < i64::MIN as i128 || n > i64::MAX as i128 { None } else { Some(n as i64) }
}
fn lines(s: &str) -> Vec<X> {
    let mut v = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        let (mut l, next) = match rest.find('\n') { Some(i) => (&rest[..i], &rest[i + 1..]), None => (rest, "") };
        if rest.contains('\n') && l.ends_with('\r') { l = &l[..l.len() - 1]; }
        v.push(X::String(l.to_string()));
        rest = next;
    }
    v
}
const C: &[(&str, usize)] = &[("to", 2), ("str", 1), ("int", 1), ("insert", 3), ("keys", 1), ("vals", 1), ("len", 1), ("lines", 1), ("insert", 3)];
fn plain(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let (name, arity) = C[(ix / 2 % C.len() as u64) as usize];
    let mut t = oks(match name {
        "to" => {
            let a = if r.one_in(10) { i64::MAX - r.below(3) as i64 } else if r.one_in(10) { i64::MIN + r.below(3) as i64 } else { r.below(20) as i64 - 10 };
            vec![X::Integer(a), X::Integer(if r.one_in(9) { i64::MIN } else { a.saturating_add(r.below(14) as i64 - 4) })]
        }
        "int" => vec![match r.below(4) { 0 => X::Integer(r.next() as i64), 1 => X::Float([0.0, -0.0, 1.5, -1.5, 2.999, -2.999, 9.3e18, -9.3e18, 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 4503599627370497.5][r.below(13)]), 2 => X::String(format!("{}", r.next() as i64)), _ => X::String(text(r)) }],
        "insert" => match r.below(3) {
            0 => vec![X::Map(map(r)), X::String(r.pick(&["a", "q", "é", ""]).to_string()), data(r, 1)],
            1 => { let l = items(r); let n = count(r, l.len()); vec![X::List(l), n, data(r, 1)] }
            _ => { let s = text(r); let n = count(r, s.len()); vec![X::String(s), n, data(r, 1)] }
        },
        "keys" | "vals" => vec![X::Map(map(r))],
        "lines" => vec![X::String(text(r))],
        "len" => vec![match r.below(3) { 0 => X::Map(map(r)), 1 => list(r), _ => X::String(text(r)) }],
        _ => vec![data(r, 2)],
    });
    if r.one_in(8) { t[0] = Ok(data(r, 1)); }
    spoil(r, &mut t);
    if r.one_in(8) {
        let m = r.below(arity + 2);
        t = (0..m).map(|i| t.get(i).cloned().unwrap_or(Ok(X::Integer(1)))).collect();
    }
    if let (true, Some(Ok(X::Integer(a)))) = (name == "to", t.get(0).cloned()) {
        // a range of all the integers there are exhausts the memory
        if let Some(Ok(X::Integer(b))) = t.get_mut(1) { if *b as i128 - a as i128 > 1000 { *b = a.saturating_add(7); } }
    }
    let groups = vec![t.len()];
    let mut rf = Ref { table: t.clone(), trace: vec![], mode: Mode::default() };
    let callee = named(&lib(), "", name)?;
    check(name, &callee, &groups, &[], &mut rf, |r| {
        let n = r.table.len();
        // one operand is enough for the functions of one; the others want exactly theirs
        if if arity == 1 { n == 0 } else { n != arity } { return Err(None); }
        let mut v = vec![];
        for k in 0..arity { v.push(r.arg(k)?); }
        let li = |x: Vec<X>| Ok(X::List(x));
        match (name, v[0].clone(), at2(&v, 1), at2(&v, 2)) {
            ("to", X::Integer(a), X::Integer(b), _) => { let mut o = vec![]; let mut i = a as i128; while i < b as i128 { o.push(X::Integer(i as i64)); i += 1; } li(o) }
            ("str", x, _, _) => Ok(X::String(format!("{}", x))),
            ("int", X::Integer(i), _, _) => Ok(X::Integer(i)),
            ("int", X::Float(f), _, _) => Ok(X::Integer(if f.is_nan() { 0 } else if f >= 9223372036854775808.0 { i64::MAX } else if f < -9223372036854775808.0 { i64::MIN } else { f.trunc() as i64 })),
            ("int", X::String(s), _, _) => number(&s).map(X::Integer).ok_or(None),
            ("insert", X::Map(m), X::String(k), x) => { let mut m = m; m.remove(&k); m.insert(k, x); Ok(X::Map(m)) }
            ("insert", X::List(l), X::Integer(i), x) => {
                if i < 0 || i as u64 > l.len() as u64 { return Err(None); }
                let mut o = l[..i as usize].to_vec(); o.push(x); o.extend(l[i as usize..].to_vec()); li(o)
            }
            ("insert", X::String(s), X::Integer(i), x) => {
                if i < 0 || i as u64 > s.len() as u64 || s.get(..i as usize).is_none() { return Err(None); }
                Ok(X::String(format!("{}{}{}", &s[..i as usize], x, &s[i as usize..])))
            }
            ("keys", X::Map(m), _, _) => li(m.iter().map(|e| X::String(e.0.clone())).collect()),
            ("vals", X::Map(m), _, _) => li(m.iter().map(|e| e.1.clone()).collect()),
            ("len", X::Map(m), _, _) => Ok(X::Integer(m.iter().count() as i64)),
            ("len", X::List(l), _, _) => Ok(X::Integer(l.iter().count() as i64)),
            ("len", X::String(s), _, _) | ("len", X::Symbol(s), _, _) => Ok(X::Integer(s.char_indices().count() as i64)),
            ("lines", X::String(s), _, _) => li(lines(&s)),
            _ => Err(None),
        }
    }, true)
}
/// an expression that looks at the scope and may change it
pub(super) fn effect(r: &mut Rng, d: usize) -> X {
    let n = r.pick(&["xa", "xb", "xc"]).to_string();
    match r.below(if d == 0 { 3 } else { 5 }) {
        0 => X::Symbol(n),
        1 => X::Assign(n, Box::new(value(r, 0))),
        2 => data(r, 1),
        3 => X::Do((0..1 + r.below(3)).map(|_| effect(r, d - 1)).collect()),
        _ => X::Assign(n, Box::new(effect(r, d - 1))),
    }
}
pub(super) fn shown(e: &Environment) -> X {
    X::Map(e.bindings.clone())
}
pub(super) fn agree(what: &str, got: (Result<X, Error>, &Environment), want: &[(Result<X, Error>, Environment)]) -> Res {
    for (w, e) in want {
        let ok = match (&got.0, w) { (Ok(a), Ok(b)) => same(a, b), (Err(_), Err(_)) => true, _ => false };
        if ok && same(&shown(got.1), &shown(e)) { return Ok(()); }
    }
    let diff = |e: &Environment| ["xa", "xb", "xc"].iter().map(|n| format!("{} = {:?}", n, e.bindings.get(*n))).collect::<Vec<_>>().join(", ");
    fail(what, format!("{:?}", want.iter().map(|(w, e)| format!("{:?} and {}", w.as_ref().map_err(|e| e.to_string()), diff(e))).collect::<Vec<_>>()), format!("{:?} and {} (and the library's names)", got.0.map_err(|e| e.to_string()), diff(got.1)))
}
fn scoped(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let mut outer = lib();
    for n in ["xa", "xb", "xc"] { if r.one_in(3) { outer.define(n, X::String(format!("outer {}", n))); } }
    let forked = r.one_in(2);
    let mut env = outer.clone();
    if forked { env = Environment::default(); env.set_parent(outer.clone()); }
    for n in ["xa", "xb", "xc"] { if r.one_in(2) { env.define(n, X::Integer(r.below(9) as i64)); } }
    let name = ["eval", "exec", "unbind", "vars", "report"][(ix / 2 % 5) as usize];
    let body = effect(r, 2);
    let quoted = r.one_in(2);
    let mut args = match name {
        "eval" | "exec" => vec![if quoted { X::Quote(Box::new(body.clone())) } else { X::Do(vec![effect(r, 1), X::Quote(Box::new(body.clone()))]) }],
        "unbind" => vec![match r.below(5) { 0 => data(r, 1), 1 => X::String("xa".into()), _ => X::Symbol(r.pick(&["xa", "xb", "xc", "nowhere"]).to_string()) }],
        "report" => vec![if r.one_in(3) { X::Symbol("xb".into()) } else { X::Do(vec![effect(r, 1), X::None]) }],
        _ => vec![],
    };
    if name == "report" && !matches!(args[0], X::Do(_)) { args[0] = X::None; }
    match r.below(10) { 0 => args.clear(), 1 => args.push(effect(r, 1)), _ => {} }
    let what = format!("{} of {:?} where {:?}", name, args, ["xa", "xb", "xc"].iter().map(|n| (n.to_string(), env.get(n), env.bindings.contains_key(*n))).collect::<Vec<_>>());
    note(&what);
    let before = env.clone();
    let mut after = before.clone();
    let none: Result<X, Error> = Err(Error::CustomError("no operand".into()));
    let want: Vec<(Result<X, Error>, Environment)> = match name {
        "eval" | "exec" | "report" if args.is_empty() => vec![(none, before.clone())],
        "eval" => match args[0].clone().eval(&mut after) {
            Err(e) => vec![(Err(e), after)],
            Ok(v) => {
                let (mut a, mut b) = (before.clone(), after.clone());
                vec![(v.clone().eval(&mut a), after.clone()), (v.eval(&mut b), after)]
            }
        },
        "exec" => match args[0].clone().eval(&mut after) {
            Err(e) => vec![(Err(e), after)],
            Ok(v) => { let x = v.eval(&mut after); vec![(x, after)] }
        },
        "report" => match args[0].clone().eval(&mut after) {
            Err(e) => vec![(Err(e), after)],
            Ok(_) => vec![(Ok(X::None), after)],
        },
        "vars" => vec![(Ok(shown(&before)), before.clone())],
        _ => match &args[..] {
            [X::Symbol(n)] | [X::String(n)] => { after.bindings.remove(n); vec![(Ok(X::None), after)] }
            _ => vec![(Err(Error::CustomError("no name".into())), after)],
        },
    };
    let callee = named(&before, "", name)?;
    let got = X::Apply(Box::new(callee), args).eval(&mut env);
    agree(&what, (got, &env), &want)?;
    // what encloses the scope is as it was
    for n in ["xa", "xb", "xc"] {
        let mut e = env.clone();
        e.bindings.remove(n);
        let mut o = before.clone();
        o.bindings.remove(n);
        if forked && !same(&e.get(n).unwrap_or(X::None), &o.get(n).unwrap_or(X::None)) {
            return fail(what, format!("{} of the enclosing scope as it was", n), format!("{:?}", e.get(n)));
        }
    }
    Ok(())
}
fn from(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let n = r.next() as i64;
    let s = text(r);
    let b: Vec<u8> = (0..r.below(5)).map(|_| r.below(256) as u8).collect();
    let l: Vec<i64> = (0..r.below(6)).map(|_| r.next() as i64).collect();
    let ss: Vec<String> = (0..r.below(5)).map(|_| text(r)).collect();
    let m = map(r);
    let mut e = Environment::new();
    for (k, v) in &m { e.define(k, v.clone()); }
    let all = vec![
        (X::from(n), X::Integer(n)), (X::from(1.5), X::Float(1.5)), (X::from(n > 0), X::Boolean(n > 0)), (X::from(s.clone()), X::String(s.clone())), (X::from(s.as_str()), X::String(s)),
        (X::from(b.clone()), X::Bytes(b)), (X::from(l.clone()), X::List(l.iter().map(|i| X::Integer(*i)).collect())), (X::from(ss.clone()), X::List(ss.iter().map(|i| X::String(i.clone())).collect())),
        (X::from(m.clone()), X::Map(m.clone())), (X::from(e), X::Map(m)),
    ];
    for (a, b) in all {
        if !same(&a, &b) { return fail("a value made an expression", format!("{:?}", b), format!("{:?}", a)); }
    }
    Ok(())
}
fn b01(seed: u64, ix: u64) -> Res {
    match ix % 8 { 3 => from(seed, ix), x if x % 2 == 1 => scoped(seed, ix), _ => plain(seed, ix) }
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "B01", fixed: none, case: b01, what: "the functions every scope has, against reference implementations, and what they leave of the scope", threads: 8 }]
}
