use super::util::*;
use dune::Expression as X;
use std::cmp::Ordering;
use std::collections::BTreeMap;

pub const INTS: &[i64] = &[0, 1, -1, 2, -2, 3, 7, -7, 10, 255, 256, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 32, -(1 << 32), 3037000500, -3037000500, 1 << 53, (1 << 53) + 1, 1 << 62, -(1 << 62)];
pub const FLOATS: &[f64] = &[0.0, -0.0, 1.0, -1.0, 0.5, 2.5, 1e308, -1e308, 1e-320, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 9007199254740993.0];
const STRS: &[&str] = &["", "a", "b", "ab", "é", "z", "A", "\0", "aa", "日本"];

pub fn same(a: &X, b: &X) -> bool {
    match (a, b) {
        (X::Float(x), X::Float(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (X::List(x), X::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (X::Map(x), X::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && same(p, q)),
        _ => a == b,
    }
}
fn nop(_: Vec<X>, _: &mut dune::Environment) -> Result<X, dune::Error> {
    Ok(X::None)
}
fn kinds() -> Vec<X> {
    let mut v = vec![X::None, X::Boolean(true), X::Boolean(false), X::Symbol("a".into()), X::Quote(Box::new(X::Integer(1)))];
    v.extend(INTS.iter().map(|i| X::Integer(*i)));
    v.extend(FLOATS.iter().map(|f| X::Float(*f)));
    v.extend(STRS.iter().map(|s| X::String(s.to_string())));
    for b in [&b""[..], b"a", b"\xff", b"\xff\x00", b"ab", b"b"] {
        v.push(X::Bytes(b.to_vec()));
    }
    let i = X::Integer;
    for l in [vec![], vec![i(1)], vec![i(2)], vec![i(1), i(2)], vec![i(1), X::String("x".into())], vec![X::Float(f64::NAN)], vec![X::None], vec![X::List(vec![]), i(3), i(4)], vec![X::Boolean(true), i(1)]] {
        v.push(X::List(l));
    }
    for m in [vec![], vec![("a", i(1))], vec![("a", i(2))], vec![("b", i(1))], vec![("a", i(1)), ("b", X::None)], vec![("", X::None)], vec![("a", X::Map(BTreeMap::new()))]] {
        v.push(X::Map(m.into_iter().map(|(k, x)| (k.to_string(), x)).collect()));
    }
    v.push(X::builtin("f", nop, ""));
    v.push(X::Macro("x".into(), Box::new(X::None)));
    v.push(X::Lambda("x".into(), Box::new(X::None), dune::Environment::new()));
    v.push(X::Group(Box::new(X::Integer(1))));
    v.push(X::Do(vec![]));
    v.push(X::Apply(Box::new(X::None), vec![]));
    v.push(X::Assign("a".into(), Box::new(X::None)));
    v.push(X::If(Box::new(X::None), Box::new(X::None), Box::new(X::None)));
    v.push(X::For("a".into(), Box::new(X::None), Box::new(X::None)));
    v
}
fn pairs() -> u64 {
    let n = kinds().len() as u64;
    n * n
}
pub fn value(r: &mut Rng, depth: usize) -> X {
    match r.below(if depth == 0 { 6 } else { 9 }) {
        0 | 1 => X::Integer(match r.below(4) { 0 => *r.pick(INTS), 1 => r.next() as i64, 2 => (r.next() as i64) >> r.below(64), _ => r.below(9) as i64 - 4 }),
        2 => X::Float(match r.below(3) { 0 => *r.pick(FLOATS), 1 => f64::from_bits(r.next()), _ => r.below(100) as f64 / 4.0 - 10.0 }),
        3 => {
            let n = if r.one_in(30) { r.below(40) } else { r.below(4) };
            X::String((0..n).map(|_| *r.pick(&['a', 'b', 'é', '\0', '日', ' ', '\u{301}', 'A', '\n'])).collect())
        }
        4 => X::Bytes((0..r.below(4)).map(|_| r.next() as u8).collect()),
        5 => match r.below(4) { 0 => X::None, 1 => X::Symbol("a".into()), _ => X::Boolean(r.one_in(2)) },
        6 | 7 => X::List((0..r.below(5)).map(|_| value(r, depth - 1)).collect()),
        _ => X::Map((0..r.below(4)).map(|_| (r.pick(STRS).to_string(), value(r, depth - 1))).collect()),
    }
}
fn two(seed: u64, ix: u64) -> (X, X) {
    if ix < pairs() {
        let k = kinds();
        let n = k.len() as u64;
        return (k[(ix / n) as usize].clone(), k[(ix % n) as usize].clone());
    }
    let mut r = Rng::new(seed, ix);
    let a = value(&mut r, 2);
    // often related operands
    let b = match (&a, r.below(6)) {
        (X::List(_), 0) if r.one_in(300) => X::Integer(4000 + r.below(2000) as i64),
        (X::List(l), 0 | 1) => X::Integer(r.below(l.len() + 2) as i64 - 1),
        (X::Map(m), 0 | 1) if !m.is_empty() => X::String(m.keys().nth(r.below(m.len())).unwrap().clone()),
        (X::Integer(i), 0) => X::Integer(i.wrapping_neg().wrapping_add(r.below(3) as i64 - 1)),
        (X::Integer(i), 1) => X::Integer((i64::MAX ^ i).wrapping_add(r.below(3) as i64 - 1)),
        (X::Integer(i), 2) if *i != 0 => X::Integer((i64::MAX / i.saturating_abs().max(1)).wrapping_add(r.below(3) as i64 - 1)),
        (X::List(l), 2) => {
            let mut l = l.clone();
            if !l.is_empty() && r.one_in(2) { let i = r.below(l.len()); l[i] = value(&mut r, 0); }
            if r.one_in(2) { l.push(X::Integer(1)); }
            X::List(l)
        }
        (X::String(s), 0 | 1) => X::String(format!("{}{}", s, r.pick(STRS))),
        _ => value(&mut r, 2),
    };
    if r.one_in(3) { (b, a) } else { (a, b) }
}
fn exact(x: i128) -> X {
    if x >= i64::MIN as i128 && x <= i64::MAX as i128 { X::Integer(x as i64) } else { X::None }
}
fn fl(x: &X) -> Option<f64> {
    match x { X::Integer(i) => Some(*i as f64), X::Float(f) => Some(*f), _ => None }
}
fn num(x: &X) -> bool {
    matches!(x, X::Integer(_) | X::Float(_))
}
/// what A01 says about `a op b`; None: nothing
fn arith(op: char, a: &X, b: &X) -> Option<X> {
    if let (X::Integer(x), X::Integer(y)) = (a, b) {
        let (x, y) = (*x as i128, *y as i128);
        return Some(match op {
            '+' => exact(x + y),
            '-' => exact(x - y),
            '*' => exact(x * y),
            _ if y == 0 => X::None,
            '/' => exact(x / y),
            _ if exact(x / y) == X::None => return None,
            _ => exact(x % y),
        });
    }
    if num(a) && num(b) {
        let (x, y) = (fl(a)?, fl(b)?);
        return Some(X::Float(match op { '+' => x + y, '-' => x - y, '*' => x * y, '/' => x / y, _ => return None }));
    }
    let container = match op {
        '+' => matches!((a, b), (X::String(_), X::String(_)) | (X::Bytes(_), X::Bytes(_)) | (X::List(_), X::List(_))),
        '-' => matches!((a, b), (X::Map(_), X::String(_)) | (X::List(_), X::Integer(_))),
        '*' => matches!((a, b), (X::String(_) | X::List(_), X::Integer(_)) | (X::Integer(_), X::String(_) | X::List(_))),
        _ => false,
    };
    if container { None } else { Some(X::None) }
}
fn run(op: char, a: &X, b: &X) -> X {
    let (a, b) = (a.clone(), b.clone());
    match op { '+' => a + b, '-' => a - b, '*' => a * b, '/' => a / b, _ => a % b }
}
/// an operand a result of reasonable size can be made with
fn small(a: &X, b: &X) -> bool {
    let big = |x: &X| matches!(x, X::Integer(i) if *i > 2000);
    !((matches!(a, X::String(_) | X::List(_)) && big(b)) || (matches!(b, X::String(_) | X::List(_)) && big(a)))
}
fn a01(seed: u64, ix: u64) -> Res {
    let (a, b) = two(seed, ix);
    for op in ['+', '-', '*', '/', '%'] {
        if op == '*' && !small(&a, &b) { continue; }
        let what = format!("{:?} {} {:?}", a, op, b);
        note(&what);
        let got = run(op, &a, &b);
        if let Some(w) = arith(op, &a, &b) {
            if !same(&got, &w) { return fail(what, format!("{:?}", w), format!("{:?}", got)); }
        }
    }
    let what = format!("-({:?})", a);
    note(&what);
    let got = -a.clone();
    let w = match &a {
        X::Integer(i) => exact(-(*i as i128)),
        X::Float(f) => X::Float(-f),
        X::Boolean(b) => X::Boolean(!b),
        _ => X::None,
    };
    if !same(&got, &w) { return fail(what, format!("{:?}", w), format!("{:?}", got)); }
    Ok(())
}
fn a02(seed: u64, ix: u64) -> Res {
    let (a, b) = two(seed, ix);
    // indexing
    let what = format!("{:?} indexed by {:?}", a, b);
    note(&what);
    let got = a[b.clone()].clone();
    let at = |l: &[X], n: i64| if n < 0 { X::None } else { l.iter().nth(n.min(1 << 40) as usize).cloned().unwrap_or(X::None) };
    let w = match (&a, &b) {
        (X::Map(m), X::Symbol(k) | X::String(k)) => m.iter().find(|(x, _)| *x == k).map(|x| x.1.clone()).unwrap_or(X::None),
        (X::List(l), X::Integer(n)) => at(l, *n),
        _ => X::None,
    };
    if !same(&got, &w) { return fail(what, format!("{:?}", w), format!("{:?}", got)); }
    for op in ['+', '-', '*'] {
        let w = match (op, &a, &b) {
            ('+', X::String(x), X::String(y)) => X::String(format!("{}{}", x, y)),
            ('+', X::Bytes(x), X::Bytes(y)) => X::Bytes(x.iter().chain(y).cloned().collect()),
            ('+', X::List(x), X::List(y)) => X::List(x.iter().chain(y).cloned().collect()),
            ('-', X::Map(m), X::String(k)) => m.iter().find(|(x, _)| *x == k).map(|x| x.1.clone()).unwrap_or(X::None),
            ('-', X::List(l), X::Integer(n)) => at(l, *n),
            ('*', X::String(s), X::Integer(n)) | ('*', X::Integer(n), X::String(s)) if *n <= 6000 => {
                let mut o = String::new();
                let mut i = 0;
                while i < *n { o.push_str(s); i += 1; }
                X::String(o)
            }
            ('*', X::List(s), X::Integer(n)) | ('*', X::Integer(n), X::List(s)) if *n <= 6000 => {
                let mut o = vec![];
                let mut i = 0;
                while i < *n { o.extend(s.iter().cloned()); i += 1; }
                X::List(o)
            }
            _ => continue,
        };
        let what = format!("{:?} {} {:?}", a, op, b);
        note(&what);
        let got = run(op, &a, &b);
        if !same(&got, &w) { return fail(what, format!("{:?}", w), format!("{:?}", got)); }
    }
    Ok(())
}
pub fn truthy(a: &X) -> bool {
    match a {
        X::Integer(0) | X::None => false,
        X::Integer(_) => true,
        X::Float(f) => !(*f == 0.0),
        X::String(s) => s.len() != 0,
        X::Bytes(s) => s.len() != 0,
        X::List(s) => s.len() != 0,
        X::Map(s) => s.len() != 0,
        X::Boolean(b) => *b,
        X::Lambda(..) | X::Macro(..) | X::Builtin(_) => true,
        _ => false,
    }
}
fn slex<T>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> Option<Ordering>) -> Option<Ordering> {
    let mut i = 0;
    loop {
        match (a.get(i), b.get(i)) {
            (None, None) => return Some(Ordering::Equal),
            (None, _) => return Some(Ordering::Less),
            (_, None) => return Some(Ordering::Greater),
            (Some(x), Some(y)) => match f(x, y) {
                Some(Ordering::Equal) => i += 1,
                o => return o,
            },
        }
    }
}
pub fn order(a: &X, b: &X) -> Option<Ordering> {
    let n = |x: i128, y: i128| Some(if x < y { Ordering::Less } else if x > y { Ordering::Greater } else { Ordering::Equal });
    match (a, b) {
        (X::Integer(x), X::Integer(y)) => n(*x as i128, *y as i128),
        (X::Float(x), X::Float(y)) => {
            if x < y { Some(Ordering::Less) } else if x > y { Some(Ordering::Greater) } else if x == y { Some(Ordering::Equal) } else { None }
        }
        (X::String(x), X::String(y)) => slex(&x.chars().collect::<Vec<_>>(), &y.chars().collect::<Vec<_>>(), |p, q| n(*p as i128, *q as i128)),
        (X::Bytes(x), X::Bytes(y)) => slex(x, y, |p, q| n(*p as i128, *q as i128)),
        (X::List(x), X::List(y)) => slex(x, y, order),
        (X::Map(x), X::Map(y)) => {
            let f = |m: &BTreeMap<String, X>| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>();
            slex(&f(x), &f(y), |p, q| match order(&X::String(p.0.clone()), &X::String(q.0.clone())) {
                Some(Ordering::Equal) => order(&p.1, &q.1),
                o => o,
            })
        }
        _ => None,
    }
}
fn a03(seed: u64, ix: u64) -> Res {
    let (a, b) = two(seed, ix);
    for x in [&a, &b] {
        note(format!("truthiness of {:?}", x));
        if x.is_truthy() != truthy(x) { return fail(format!("truthiness of {:?}", x), truthy(x), x.is_truthy()); }
    }
    let what = format!("{:?} compared with {:?}", a, b);
    note(&what);
    let (g, w) = (a.partial_cmp(&b), order(&a, &b));
    if g != w { return fail(what, format!("{:?}", w), format!("{:?}", g)); }
    for (n, g, w) in [("<", a < b, w == Some(Ordering::Less)), (">", a > b, w == Some(Ordering::Greater)),
        ("<=", a <= b, matches!(w, Some(Ordering::Less | Ordering::Equal))), (">=", a >= b, matches!(w, Some(Ordering::Greater | Ordering::Equal)))] {
        if g != w { return fail(format!("{:?} {} {:?}", a, n, b), w, g); }
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "A01", fixed: pairs, case: a01, what: "every pair of 70-odd awkward values under + - * / % and negation against 128-bit integers, then random pairs", threads: 0 },
        Prop { id: "A02", fixed: pairs, case: a02, what: "indexing, removal, concatenation and repetition of every pair of awkward values, then random pairs", threads: 0 },
        Prop { id: "A03", fixed: pairs, case: a03, what: "truthiness and order of every pair of awkward values, then random nested pairs", threads: 0 },
    ]
}
