//! The library functions, called by the names they are registered under, against
//! reference implementations that also say which operand is evaluated when.
use super::p_arith::{order, same, truthy, value};
use super::util::*;
use dune::{Environment, Error, Expression as X};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::BTreeMap;

thread_local! {
    static TRACE: RefCell<Vec<String>> = RefCell::new(vec![]);
    static TABLE: RefCell<Vec<Result<X, String>>> = RefCell::new(vec![]);
    static MODE: RefCell<Mode> = RefCell::new(Mode::default());
    static LIB: RefCell<Option<Environment>> = RefCell::new(None);
}
/// how the probe function answers
#[derive(Clone, Default, Debug)]
pub(super) struct Mode {
    /// the call that fails
    fail_at: usize,
    /// answer with a value whose truthiness depends on the operands
    test: bool,
    salt: u64,
}
fn answer(n: usize, m: &Mode, a: &[X]) -> Result<X, String> {
    if n + 1 == m.fail_at {
        return Err(format!("call {} failed", n));
    }
    if m.test {
        let h = format!("{:?}", a).bytes().fold(m.salt, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        return Ok([X::Integer(0), X::Integer(3), X::None, X::String("a".into()), X::String("".into()), X::Boolean(true), X::List(vec![]), X::List(vec![X::None])][(h >> 40) as usize % 8].clone());
    }
    Ok(X::List(std::iter::once(X::Integer(n as i64)).chain(a.iter().cloned()).collect()))
}
/// an operand: evaluating it is recorded
fn probe(args: Vec<X>, _: &mut Environment) -> Result<X, Error> {
    if let Some(X::Integer(k)) = args.first() {
        TRACE.with(|t| t.borrow_mut().push(format!("operand {}", k)));
        return TABLE.with(|t| t.borrow()[*k as usize].clone()).map_err(Error::CustomError);
    }
    Err(Error::CustomError("probe".into()))
}
/// a function: calling it is recorded
fn func(args: Vec<X>, env: &mut Environment) -> Result<X, Error> {
    let mut v = vec![];
    for a in &args {
        v.push(a.eval(env)?);
    }
    let n = TRACE.with(|t| {
        let mut t = t.borrow_mut();
        let n = t.iter().filter(|x| x.starts_with("call")).count();
        t.push(format!("call {:?}", v));
        n
    });
    MODE.with(|m| answer(n, &m.borrow(), &v)).map_err(Error::CustomError)
}
pub(super) fn lib() -> Environment {
    LIB.with(|l| {
        let mut l = l.borrow_mut();
        if l.is_none() {
            let mut e = Environment::new();
            crate::binary::init(&mut e);
            *l = Some(e);
        }
        l.as_ref().unwrap().clone()
    })
}
pub(super) fn named(e: &Environment, module: &str, name: &str) -> Result<X, Failure> {
    let r = if module.is_empty() { e.get(name) } else { match e.get(module) { Some(X::Map(m)) => m.get(name).cloned(), _ => None } };
    match r {
        Some(x) => Ok(x),
        None => fail(format!("{} {}", module, name), "a function of this name", "nothing"),
    }
}
pub(super) fn find_builtin(x: &X) -> Option<X> {
    match x {
        X::Builtin(_) => Some(x.clone()),
        X::Lambda(_, b, _) => find_builtin(b),
        X::Apply(f, _) => find_builtin(f),
        _ => None,
    }
}
/// the reference's side
pub(super) struct Ref {
    pub(super) table: Vec<Result<X, String>>,
    pub(super) trace: Vec<String>,
    pub(super) mode: Mode,
}
/// Err(None): some error; Err(Some): this error
pub(super) type W = Result<X, Option<String>>;
impl Ref {
    pub(super) fn arg(&mut self, k: usize) -> W {
        self.trace.push(format!("operand {}", k));
        self.table[k].clone().map_err(Some)
    }
    pub(super) fn call(&mut self, f: &X, a: Vec<X>) -> W {
        if !matches!(f, X::Builtin(_)) { return Err(None); }
        let n = self.trace.iter().filter(|x| x.starts_with("call")).count();
        self.trace.push(format!("call {:?}", a));
        answer(n, &self.mode, &a).map_err(Some)
    }
}
pub(super) fn op(k: usize) -> X {
    X::Apply(Box::new(X::builtin("probe", probe, "")), vec![X::Integer(k as i64)])
}
pub(super) fn f() -> X {
    X::builtin("func", func, "")
}
pub(super) fn arm(r: &Ref) {
    TRACE.with(|t| t.borrow_mut().clear());
    TABLE.with(|t| *t.borrow_mut() = r.table.clone());
    MODE.with(|m| *m.borrow_mut() = r.mode.clone());
}
pub(super) fn traced() -> Vec<String> {
    TRACE.with(|t| t.borrow().clone())
}
pub(super) fn failing(k: usize) -> Mode {
    Mode { fail_at: k, test: false, salt: 0 }
}
/// run `callee` on operands 0..n (in the given groups, one call after the other), compare with `w`
pub(super) fn check(what: &str, callee: &X, groups: &[usize], literal: &[(usize, X)], r: &mut Ref, w: impl FnOnce(&mut Ref) -> W, traced: bool) -> Res {
    let mut env = lib();
    let mut x = callee.clone();
    let mut k = 0;
    for g in groups {
        let args = (k..k + g).map(|i| literal.iter().find(|l| l.0 == i).map(|l| l.1.clone()).unwrap_or_else(|| op(i))).collect();
        k += g;
        x = X::Apply(Box::new(x), args);
    }
    let what = format!("{} on operands {:?} {:?} (calls of {:?}; {:?})", what, r.table, literal, groups, r.mode);
    note(&what);
    TRACE.with(|t| t.borrow_mut().clear());
    TABLE.with(|t| *t.borrow_mut() = r.table.clone());
    MODE.with(|m| *m.borrow_mut() = r.mode.clone());
    let got = x.eval(&mut env);
    let want = w(r);
    let ok = match (&got, &want) {
        (Ok(a), Ok(b)) => same(a, b),
        (Err(Error::CustomError(a)), Err(Some(b))) => a == b,
        (Err(_), Err(None)) => true,
        _ => false,
    };
    if !ok {
        return fail(what, format!("{:?}", want), format!("{:?}", got.map_err(|e| format!("{:?}", e))));
    }
    let t = TRACE.with(|t| t.borrow().clone());
    if traced && t != r.trace {
        return fail(what, format!("evaluations {:?}", r.trace), format!("evaluations {:?}", t));
    }
    Ok(())
}
pub(super) fn data(r: &mut Rng, d: usize) -> X {
    // a value that evaluates to itself
    loop {
        let v = value(r, d);
        fn plain(x: &X) -> bool {
            match x {
                X::Symbol(_) => false,
                X::List(l) => l.iter().all(plain),
                X::Map(m) => m.values().all(plain),
                _ => true,
            }
        }
        if plain(&v) { return v; }
    }
}
pub(super) fn items(r: &mut Rng) -> Vec<X> {
    let n = match r.below(8) { _ if r.one_in(150) => 60 + r.below(400), 0 => 0, 1 => 1, 2 => 2, 7 => r.below(40), _ => r.below(8) };
    (0..n).map(|i| if r.one_in(3) { data(r, 1) } else { X::Integer(if r.one_in(2) { i as i64 } else { r.below(9) as i64 }) }).collect()
}
pub(super) fn list(r: &mut Rng) -> X {
    X::List(items(r))
}
pub(super) fn count(r: &mut Rng, len: usize) -> X {
    X::Integer(match r.below(10) { 0 => 0, 1 => len as i64, 2 => len as i64 + 1, 3 => len as i64 - 1, 4 => -(len as i64), 5 => -(len as i64) - 1, 6 => i64::MAX, 7 => i64::MIN, 8 => -(r.below(len + 2) as i64), _ => r.below(len + 3) as i64 })
}
pub(super) fn spoil(r: &mut Rng, t: &mut Vec<Result<X, String>>) {
    // sometimes a wrong type or a failing operand
    if r.one_in(5) && !t.is_empty() {
        let k = r.below(t.len());
        t[k] = if r.one_in(2) { Err(format!("operand {} failed", k)) } else { Ok(data(r, 1)) };
    }
}
pub(super) fn oks(t: Vec<X>) -> Vec<Result<X, String>> {
    t.into_iter().map(Ok).collect()
}
const L: &[(&str, usize)] = &[("head", 1), ("tail", 1), ("cons", 2), ("append", 2), ("take", 2), ("drop", 2), ("split-at", 2), ("rev", 1), ("zip", 2), ("unzip", 1), ("chunk", 2), ("nth", 2), ("range", 2), ("len", 1)];
fn l01(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let (name, arity) = L[(ix % L.len() as u64) as usize];
    let l = items(r);
    let n = count(r, l.len());
    let xs = X::List(l);
    let mut t = oks(match name {
        "cons" => vec![data(r, 1), xs],
        "append" => vec![xs, data(r, 1)],
        "take" | "drop" | "split-at" | "nth" => vec![n, xs],
        "chunk" => vec![if r.one_in(6) { n } else { X::Integer(1 + r.below(5) as i64) }, xs],
        "zip" => vec![xs, list(r)],
        "unzip" => {
            let n = r.below(6);
            let mut v: Vec<X> = (0..n).map(|_| X::List(vec![data(r, 1), data(r, 1)])).collect();
            if r.one_in(5) && n > 0 { let i = r.below(n); v[i] = if r.one_in(2) { X::List(vec![X::None; r.below(4)]) } else { data(r, 1) }; }
            vec![X::List(v)]
        }
        "range" => {
            let a = if r.one_in(10) { i64::MAX - r.below(3) as i64 } else if r.one_in(10) { i64::MIN + r.below(3) as i64 } else { r.below(20) as i64 - 10 };
            let far = if r.one_in(100) { r.below(70000) } else { r.below(14) };
            vec![X::Integer(a), X::Integer(a.saturating_add(far as i64 - 4))]
        }
        "rev" | "len" => vec![match r.below(4) { 0 => X::String((0..r.below(7)).map(|_| *r.pick(&["", "abc", "é日", "a", "\u{301}", "\u{200d}", " ", "\r\n", "👩", "\0", "Z"])).collect()), 1 => X::Bytes(vec![1, 2, 255]), _ => xs }],
        _ => vec![xs],
    });
    let mut groups = vec![t.len()];
    {
        if r.one_in(12) && name != "take" && name != "drop" {
            // a wrong number of operands
            let m = r.below(5);
            t = (0..m).map(|i| Ok(t.get(i).and_then(|x| x.clone().ok()).unwrap_or(X::Integer(1)))).collect();
            groups = vec![m];
        } else {
            if name != "range" { spoil(r, &mut t); }
            if (name == "take" || name == "drop") && r.one_in(2) { groups = vec![1, 1]; }
        }
    }
    let mut rf = Ref { table: t.clone(), trace: vec![], mode: Mode::default() };
    let callee = named(&lib(), "list", name)?;
    if name == "chunk" && matches!(&t.get(0), Some(Ok(X::Integer(n))) if *n < 1) {
        // only that it answers
        let mut env = lib();
        note(format!("chunk {:?}", t));
        TABLE.with(|x| *x.borrow_mut() = t.clone());
        let _ = X::Apply(Box::new(callee), (0..t.len()).map(op).collect()).eval(&mut env);
        return Ok(());
    }
    check(name, &callee, &groups, &[], &mut rf, |r| {
        if r.table.len() != arity { return Err(None); }
        // the order in which operands are evaluated is not part of this property
        let mut v = vec![];
        let mut bad = false;
        for x in &t {
            match x { Ok(x) => v.push(x.clone()), Err(_) => bad = true }
        }
        if bad { return Err(None); }
        let at = |i: usize| v[i].clone();
        let pos = |n: i64, len: usize| if n < 0 { len } else { (n as u64).min(len as u64) as usize };
        let li = |x: Vec<X>| Ok(X::List(x));
        match (name, at2(&v, 0), at2(&v, 1)) {
            ("head", X::List(l), _) => Ok(l.first().cloned().unwrap_or(X::None)),
            ("tail", X::List(l), _) => { let mut l = l; if !l.is_empty() { l.remove(0); } li(l) }
            ("cons", x, X::List(l)) => { let mut o = vec![x]; o.extend(l); li(o) }
            ("append", X::List(l), x) => { let mut l = l; l.push(x); li(l) }
            ("take", X::Integer(n), X::List(l)) => { let k = pos(n, l.len()); li(l[..k].to_vec()) }
            ("drop", X::Integer(n), X::List(l)) => { let k = pos(n, l.len()); li(l[k..].to_vec()) }
            ("split-at", X::Integer(n), X::List(l)) => { let k = pos(n, l.len()); li(vec![X::List(l[..k].to_vec()), X::List(l[k..].to_vec())]) }
            ("rev", X::List(l), _) => { let mut o = vec![]; for x in l { o.insert(0, x); } li(o) }
            ("rev", X::String(s), _) => { let mut o = String::new(); for c in s.chars() { o.insert(0, c); } Ok(X::String(o)) }
            ("rev", X::Bytes(l), _) => { let mut o = vec![]; for x in l { o.insert(0, x); } Ok(X::Bytes(o)) }
            ("zip", X::List(a), X::List(b)) => { let mut o = vec![]; let mut i = 0; while i < a.len() && i < b.len() { o.push(X::List(vec![a[i].clone(), b[i].clone()])); i += 1; } li(o) }
            ("unzip", X::List(l), _) => {
                let (mut a, mut b) = (vec![], vec![]);
                for x in l {
                    match x { X::List(p) if p.len() == 2 => { a.push(p[0].clone()); b.push(p[1].clone()); } _ => return Err(None) }
                }
                li(vec![X::List(a), X::List(b)])
            }
            ("chunk", X::Integer(n), X::List(l)) => {
                let mut o = vec![];
                let mut i = 0;
                while i < l.len() { let j = (i as u64).saturating_add(n as u64).min(l.len() as u64) as usize; o.push(X::List(l[i..j].to_vec())); i = j; }
                li(o)
            }
            ("nth", X::Integer(n), X::List(l)) => {
                let i = if n < 0 { n as i128 + l.len() as i128 } else { n as i128 };
                if i < 0 || i >= l.len() as i128 { Err(None) } else { Ok(l[i as usize].clone()) }
            }
            ("range", X::Integer(a), X::Integer(b)) => { let mut o = vec![]; let mut i = a as i128; while i <= b as i128 { o.push(X::Integer(i as i64)); i += 1; } li(o) }
            ("len", X::List(l), _) => Ok(X::Integer(l.len() as i64)),
            ("len", X::String(l), _) => Ok(X::Integer(l.len() as i64)),
            ("len", X::Bytes(l), _) => Ok(X::Integer(l.len() as i64)),
            ("len", X::Map(l), _) => Ok(X::Integer(l.len() as i64)),
            _ => Err(None),
        }
    }, false)
}
pub(super) fn at2(v: &[X], i: usize) -> X {
    v.get(i).cloned().unwrap_or(X::None)
}
pub(super) fn fails_as_any(w: W) -> W {
    w.map_err(|_| None)
}
const H: &[&str] = &["foldl", "foldr", "reduce", "map", "filter", "?", "map1", "filter1", "reduce1", "reduce2"];
fn l02(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let name = H[(ix % H.len() as u64) as usize];
    let fun = if r.one_in(10) { X::Integer(5) } else { f() };
    let mut t = oks(match name {
        "foldl" | "foldr" | "reduce" | "reduce1" | "reduce2" => vec![fun, data(r, 1), list(r)],
        "?" => vec![data(r, 1), data(r, 1), data(r, 1)],
        _ => vec![fun, list(r)],
    });
    let curried = name.ends_with('1') || name.ends_with('2');
    let mut groups = match name { "map1" | "filter1" => vec![1, 1], "reduce1" => vec![1, 1, 1], "reduce2" => vec![2, 1], _ => vec![t.len()] };
    if r.one_in(12) && !curried {
        let m = [0, 4][r.below(2)];
        t = (0..m).map(|i| Ok(t.get(i).and_then(|x| x.clone().ok()).unwrap_or(X::Integer(1)))).collect();
        groups = vec![m];
    } else if !curried {
        spoil(r, &mut t);
    }
    let bad = groups == vec![0] || groups == vec![4];
    let mode = Mode { fail_at: if r.one_in(4) { 1 + r.below(4) } else { 0 }, test: name.starts_with("filter") || (name == "map" && r.one_in(2)), salt: r.next() };
    let mut rf = Ref { table: t.clone(), trace: vec![], mode };
    let base = name.trim_end_matches(|c| c == '1' || c == '2');
    let callee = named(&lib(), if name.starts_with("fold") { "list" } else { "fn" }, base)?;
    check(name, &callee, &groups, &[], &mut rf, |r| {
        if bad { return Err(None); }
        match base {
            "foldl" | "reduce" | "foldr" => {
                let (f, mut acc, l);
                if base == "reduce" && groups.len() == 1 {
                    // the list first
                    let x = r.arg(2)?;
                    if !matches!(x, X::List(_)) { return Err(None); }
                    f = r.arg(0)?;
                    acc = r.arg(1)?;
                    l = x;
                } else {
                    f = r.arg(0)?;
                    acc = r.arg(1)?;
                    l = r.arg(2)?;
                }
                let mut l = match l { X::List(l) => l, _ => return Err(None) };
                if base == "foldr" { l.reverse(); }
                for x in l {
                    acc = if base == "foldr" { r.call(&f, vec![x, acc])? } else { r.call(&f, vec![acc, x])? };
                }
                Ok(acc)
            }
            "map" | "filter" => {
                let (f, l);
                if groups.len() == 1 {
                    l = r.arg(1)?;
                    if !matches!(l, X::List(_)) { return Err(None); }
                    f = r.arg(0)?;
                } else {
                    f = r.arg(0)?;
                    l = r.arg(1)?;
                }
                let l = match l { X::List(l) => l, _ => return Err(None) };
                let mut o = vec![];
                for x in l {
                    let y = r.call(&f, vec![x.clone()])?;
                    if base == "map" { o.push(y) } else if truthy(&y) { o.push(x) }
                }
                Ok(X::List(o))
            }
            _ => {
                let c = r.arg(0)?;
                if truthy(&c) { r.arg(1) } else { r.arg(2) }
            }
        }
    }, !bad)
}
const KEYS: &[&str] = &["", "a", "b", "c", "é", "ab", "z", "0", "A", " a", "a ", "e\u{301}", "a\n", "True"];
/// a key as a program may write it: any value, by its text
fn a_key(r: &mut Rng) -> X {
    if r.one_in(5) { data(r, 1) } else { X::String(r.pick(KEYS).to_string()) }
}
fn table(r: &mut Rng) -> X {
    X::Map((0..r.below(6)).map(|_| (r.pick(KEYS).to_string(), data(r, 1))).collect())
}
const D: &[&str] = &["insert", "remove", "has?", "union", "intersect", "difference", "keys", "values", "items", "from-items", "round trip"];
fn d01(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let name = D[(ix % D.len() as u64) as usize];
    let key = a_key(r);
    let mut t = oks(match name {
        "insert" => vec![table(r), key, data(r, 1)],
        "remove" | "has?" => vec![table(r), key],
        "union" | "intersect" | "difference" => vec![table(r), table(r)],
        "from-items" => vec![X::List((0..r.below(6)).map(|_| X::List(vec![a_key(r), data(r, 1)])).collect())],
        _ => vec![table(r)],
    });
    let arity = t.len();
    if r.one_in(10) {
        let m = r.below(5);
        t = (0..m).map(|i| Ok(t.get(i).and_then(|x| x.clone().ok()).unwrap_or(X::Integer(1)))).collect();
    } else if r.one_in(8) {
        let k = r.below(t.len());
        t[k] = Err(format!("operand {} failed", k));
    }
    let e = lib();
    let mut rf = Ref { table: t.clone(), trace: vec![], mode: Mode::default() };
    let (callee, groups) = if name == "round trip" {
        let x = X::Apply(Box::new(named(&e, "dict", "from-items")?), vec![X::Apply(Box::new(named(&e, "dict", "items")?), (0..t.len()).map(op).collect())]);
        (x, vec![])
    } else {
        (named(&e, "dict", name)?, vec![t.len()])
    };
    check(name, &callee, &groups, &[], &mut rf, |_| {
        if t.len() != arity { return Err(None); }
        let mut v = vec![];
        for x in &t {
            match x { Ok(x) => v.push(x.clone()), Err(_) => return Err(None) }
        }
        let ents = |x: &X| match x { X::Map(m) => m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(), _ => vec![] };
        let k = v.get(1).map(|x| format!("{}", x)).unwrap_or_default();
        let a = ents(&v[0]);
        let b = v.get(1).map(|x| ents(x)).unwrap_or_default();
        let has = |m: &[(String, X)], k: &str| m.iter().any(|e| e.0 == k);
        let mk = |m: Vec<(String, X)>| Ok(X::Map(m.into_iter().collect::<BTreeMap<_, _>>()));
        match name {
            "insert" => { let mut m: Vec<_> = a.into_iter().filter(|e| e.0 != k).collect(); m.push((k, v[2].clone())); mk(m) }
            "remove" => mk(a.into_iter().filter(|e| e.0 != k).collect()),
            "has?" => Ok(X::Boolean(has(&a, &k))),
            "union" => { let mut m: Vec<_> = a.into_iter().filter(|e| !has(&b, &e.0)).collect(); m.extend(b); mk(m) }
            "intersect" => mk(a.into_iter().filter(|e| has(&b, &e.0)).collect()),
            "difference" => mk(a.into_iter().filter(|e| !has(&b, &e.0)).collect()),
            "keys" => Ok(X::List(a.into_iter().map(|e| X::String(e.0)).collect())),
            "values" => Ok(X::List(a.into_iter().map(|e| e.1).collect())),
            "items" => Ok(X::List(a.into_iter().map(|e| X::List(vec![X::String(e.0), e.1])).collect())),
            "from-items" => {
                let mut m: Vec<(String, X)> = vec![];
                if let X::List(l) = &v[0] {
                    for p in l {
                        if let X::List(p) = p {
                            let k = format!("{}", p[0]);
                            m.retain(|e| e.0 != k);
                            m.push((k, p[1].clone()));
                        }
                    }
                }
                mk(m)
            }
            _ => Ok(v[0].clone()),
        }
    }, false)
}
const O: &[&str] = &["+", "-", "*", "//", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "!", "@"];
fn operand(r: &mut Rng, name: &str) -> X {
    match name {
        "*" => match r.below(4) { 0 => X::String("ab".into()), 1 => X::List(vec![X::Integer(1)]), 2 => X::Float(1.5), _ => X::Integer(r.below(7) as i64 - 2) },
        "+" | "-" | "//" | "%" => match r.below(10) { 0 => data(r, 1), 1 => X::Integer(i64::MAX), 2 => X::Float(0.5), 3 => X::String("x".into()), _ => X::Integer(r.below(9) as i64 - 2) },
        "&&" | "||" | "!" => if r.one_in(2) { X::Boolean(r.one_in(2)) } else { data(r, 1) },
        _ => data(r, 1),
    }
}
fn o01(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let name = O[(ix % O.len() as u64) as usize];
    let e = lib();
    let mut callee = named(&e, "", name)?;
    let curried = matches!(callee, X::Lambda(..));
    let arith = matches!(name, "+" | "-" | "*" | "//" | "%");
    let relation = matches!(name, "==" | "!=" | "<" | "<=" | ">" | ">=");
    let mut n = if relation { 2 } else { [1, 2, 2, 3, 3, 4][r.below(6)] };
    let mut lits = vec![];
    let mut t: Vec<Result<X, String>> = (0..n).map(|_| Ok(operand(r, name))).collect();
    if relation && r.one_in(3) { t[1] = t[0].clone(); }
    if name == "@" {
        // something to index and a path into it
        let mut inner = data(r, 1);
        let mut path = vec![];
        for _ in 1..n {
            if r.one_in(2) {
                let k = r.pick(KEYS).to_string();
                let mut m: BTreeMap<String, X> = (0..r.below(3)).map(|_| (r.pick(KEYS).to_string(), data(r, 1))).collect();
                m.insert(k.clone(), inner);
                inner = X::Map(m);
                path.push(X::String(k));
            } else {
                let mut l = items(r);
                let i = r.below(l.len() + 1);
                l.insert(i, inner);
                inner = X::List(l);
                path.push(X::Integer(i as i64));
            }
        }
        path.reverse();
        t = vec![Ok(inner)];
        for (i, p) in path.into_iter().enumerate() {
            match (&p, r.below(3)) {
                (X::String(k), 0) => lits.push((i + 1, X::Symbol(k.clone()))),
                (X::Integer(_), 0) => lits.push((i + 1, p.clone())),
                _ => {}
            }
            t.push(Ok(if r.one_in(8) { data(r, 0) } else { p }));
        }
    }
    let mut groups = vec![n];
    if curried {
        if r.one_in(2) {
            callee = find_builtin(&callee).unwrap_or(callee);
        } else {
            n = 2;
            t = (0..2).map(|_| Ok(operand(r, name))).collect();
            groups = if r.one_in(2) { vec![2] } else { vec![1, 1] };
        }
    }
    if r.one_in(6) { let k = r.below(t.len()); if !lits.iter().any(|l: &(usize, X)| l.0 == k) { t[k] = Err(format!("operand {} failed", k)); } }
    if r.one_in(12) && !matches!(callee, X::Lambda(..)) {
        n = if relation { r.below(2) } else { 0 };
        t.truncate(n);
        lits.clear();
        groups = vec![n];
    }
    // one operand of + gives a function of the other
    if name == "+" && n == 1 && groups == vec![1] {
        t.push(Ok(operand(r, name)));
        groups = vec![1, 1];
        n = 2;
    }
    let mut rf = Ref { table: t.clone(), trace: vec![], mode: Mode::default() };
    let gs = groups.clone();
    let traced = groups.len() == 1 && !matches!(callee, X::Lambda(..));
    let l2 = lits.clone();
    check(name, &callee, &groups, &lits, &mut rf, |r| {
        let w = (|| -> W {
            if (arith || name == "@") && n == 0 { return Err(None); }
            if relation && n < 2 { return Err(None); }
            if arith && name == "+" && groups.len() == 2 {
                // `+ a` is the function that adds a to the right of its operand
                let a = r.arg(0)?;
                let b = r.arg(1)?;
                return match b + a { X::None => Err(None), x => Ok(x) };
            }
            if arith {
                let mut acc = r.arg(0)?;
                if n == 1 && name == "-" { return Ok(-acc); }
                for k in 1..n {
                    let b = r.arg(k)?;
                    acc = match name { "+" => acc + b, "-" => acc - b, "*" => acc * b, "//" => acc / b, _ => acc % b };
                    if acc == X::None { return Err(None); }
                }
                return Ok(acc);
            }
            if relation {
                let (a, b) = (r.arg(0)?, r.arg(1)?);
                let o = order(&a, &b);
                return Ok(X::Boolean(match name {
                    "==" => a == b,
                    "!=" => !(a == b),
                    "<" => o == Some(Ordering::Less),
                    "<=" => matches!(o, Some(Ordering::Less | Ordering::Equal)),
                    ">" => o == Some(Ordering::Greater),
                    _ => matches!(o, Some(Ordering::Greater | Ordering::Equal)),
                }));
            }
            if name == "@" {
                let mut v = r.arg(0)?;
                for k in 1..n {
                    let i = match l2.iter().find(|l| l.0 == k) { Some(l) => l.1.clone(), None => r.arg(k)? };
                    v = match (&v, &i) {
                        (X::Map(m), X::String(k) | X::Symbol(k)) => m.get(k).cloned().unwrap_or(X::None),
                        (X::List(l), X::Integer(n)) if *n >= 0 => l.get(*n as usize).cloned().unwrap_or(X::None),
                        _ => X::None,
                    };
                }
                return Ok(v);
            }
            let mut v = vec![];
            for k in 0..n { v.push(truthy(&r.arg(k)?)); }
            Ok(X::Boolean(match name { "&&" => v.iter().all(|x| *x), "||" => v.iter().any(|x| *x), _ => v.iter().all(|x| !*x) }))
        })();
        if traced { w } else { fails_as_any(w) }
    }, traced)
}
pub(super) fn none() -> u64 {
    0
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "L01", fixed: none, case: l01, what: "every list function, by its registered name, on random lists, counts at and beyond the ends, wrong types and operand counts", threads: 0 },
        Prop { id: "L02", fixed: none, case: l02, what: "folds, map, filter, reduce and the conditional with recorded evaluations, failing operands and calls, and fewer-operand forms", threads: 0 },
        Prop { id: "D01", fixed: none, case: d01, what: "every dictionary function on random maps against association lists", threads: 0 },
        Prop { id: "O01", fixed: none, case: o01, what: "every operator with recorded evaluations, 0 to 4 operands, failing operands and partial applications", threads: 0 },
    ]
}
