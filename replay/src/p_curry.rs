//! Currying and the other functions of functions: operands given together, in groups,
//! or later in another scope, where the names of the parameters are bound to something else.
use super::p_arith::{same, value};
use super::p_lib::*;
use super::util::*;
use dune::{Environment, Error, Expression as X};

const NAMES: &[&str] = &["arg0", "arg1", "arg2", "arg3", "arg4", "arg5", "f", "g", "x", "y", "args", "arg", "list"];
/// a scope in which the names of parameters have other values
fn scope(r: &mut Rng) -> (Environment, Vec<Option<X>>) {
    let mut e = lib();
    let all = r.one_in(2);
    for n in NAMES {
        if all || r.one_in(2) { e.define(n, if r.one_in(3) { X::Symbol(r.pick(NAMES).to_string()) } else { X::String(format!("the {} of this scope {}", n, r.below(100))) }); }
    }
    let v = NAMES.iter().map(|n| e.get(n)).collect();
    (e, v)
}
/// the function that records its calls, or one written in Dune that passes its operands on to it
fn target(r: &mut Rng, n: usize) -> X {
    if r.one_in(2) { return f(); }
    let mut names: Vec<&str> = match r.below(3) { 0 => vec!["arg4", "arg3", "arg2", "arg1", "arg0"], 1 => vec!["arg0", "arg1", "arg2", "arg3", "arg4"], _ => vec!["x", "y", "f", "g", "z"] };
    names.truncate(n);
    let mut b = X::Apply(Box::new(f()), names.iter().map(|n| X::Symbol(n.to_string())).collect());
    for n in names.iter().rev() {
        b = X::Lambda(n.to_string(), Box::new(b), Environment::default());
    }
    b
}
fn groups(r: &mut Rng, m: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = m;
    while left > 0 {
        let g = 1 + r.below(left);
        v.push(g);
        left -= g;
    }
    v
}
fn agree(what: &str, got: &Result<X, Error>, want: &W) -> Res {
    let ok = match (got, want) {
        (Ok(a), Ok(b)) => same(a, b),
        (Err(Error::CustomError(a)), Err(Some(b))) => a == b,
        (Err(_), Err(None)) => true,
        _ => false,
    };
    if ok { Ok(()) } else { fail(what, format!("{:?}", want), format!("{:?}", got.as_ref().map_err(|e| format!("{:?}", e)))) }
}
/// `start` given the operands first..first+m, some now and some later; `begin`: what evaluating `start` evaluates
fn drive(r: &mut Rng, what: &str, start: X, first: usize, n: usize, m: usize, rf: &mut Ref, begin: impl Fn(&mut Ref) -> Result<(), Option<String>>, want: impl Fn(&mut Ref, Vec<X>) -> W, trace: bool) -> Res {
    let gs = groups(r, m);
    let what = format!("{} on operands {:?}, given {:?} of them at a time ({:?})", what, rf.table, gs, rf.mode);
    note(&what);
    arm(rf);
    let (mut env, mut had) = scope(r);
    let mut x = start;
    let mut k = first;
    let mut result: Option<Result<X, Error>> = None;
    let mut given = 0;
    for g in &gs {
        if r.one_in(2) {
            // what it is so far, applied later
            match x.eval(&mut env) {
                Ok(v) => {
                    if given < n && !matches!(v, X::Lambda(..) | X::Builtin(_)) { return fail(format!("{}, before operand {}", what, k), "a function", format!("{:?}", v)); }
                    x = v;
                }
                Err(e) => { result = Some(Err(e)); break; }
            }
            if r.one_in(2) {
                let now: Vec<_> = NAMES.iter().map(|n| env.get(n)).collect();
                if now != had { return fail(what, format!("{:?} to be {:?} as before", NAMES, had), format!("{:?}", now)); }
                (env, had) = scope(r);
            }
        }
        x = X::Apply(Box::new(x), (k..k + g).map(op).collect());
        k += g;
        given += g;
    }
    let got = match result { Some(e) => e, None => x.eval(&mut env) };
    let w = (|| -> W {
        begin(rf)?;
        let mut v = vec![];
        for i in first..first + m { v.push(rf.arg(i)?); }
        if m < n { Ok(X::None) } else { want(rf, v) }
    })();
    match (&got, &w) {
        (Ok(X::Lambda(..)), Ok(_)) if m < n => {}
        (Ok(g), Ok(_)) if m < n => return fail(what, "a function that waits for the rest", format!("{:?}", g)),
        _ => agree(&what, &got, &w)?,
    }
    let t = traced();
    if trace && t != rf.trace { return fail(what, format!("evaluations {:?}", rf.trace), format!("evaluations {:?}", t)); }
    let now: Vec<_> = NAMES.iter().map(|n| env.get(n)).collect();
    if now != had { return fail(what, format!("{:?} to be {:?} as before", NAMES, had), format!("{:?}", now)); }
    Ok(())
}
fn operand(r: &mut Rng) -> X {
    match r.below(5) { 0 => X::Symbol(r.pick(NAMES).to_string()), 1 => data(r, 1), 2 => value(r, 1), _ => X::Integer(r.below(100) as i64) }
}
fn c01(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let kind = ix % 12;
    let table = |t: Vec<X>| Ref { table: oks(t), trace: vec![], mode: failing(0) };
    match kind {
        0 | 1 | 2 | 3 | 4 => {
            // a function made of another by fn@curry
            let n = match r.below(12) { 0 => 11 + r.below(3), k => 1 + k % 5 };
            let fun = if n > 5 { f() } else { target(r, n) };
            let lambda = matches!(fun, X::Lambda(..));
            let mut t = vec![fun, X::Integer(n as i64)];
            let m = if r.one_in(4) { r.below(n + 1) } else { n };
            for _ in 0..m { t.push(operand(r)); }
            let mut rf = table(t);
            if r.one_in(4) && m > 0 { let k = r.below(m); rf.table[2 + k] = Err(format!("operand {} failed", 2 + k)); }
            if r.one_in(5) { rf.mode = failing(1); }
            let mut ops = vec![op(0), op(1)];
            if r.one_in(20) { ops.push(op(1)); }
            let start = X::Apply(Box::new(named(&lib(), "fn", "curry")?), ops);
            let fun = f();
            drive(r, "curry", start, 2, n, m, &mut rf, |rf| { rf.arg(0)?; rf.arg(1)?; Ok(()) }, |rf, v| rf.call(&fun, v), true)
        }
        5 => {
            // what cannot be curried
            let count = match r.below(4) { 0 => X::Integer(-1 - (r.next() >> 1 >> r.below(63)) as i64), 1 => X::Integer(i64::MIN), 2 => X::Integer(2), _ => data(r, 1) };
            if matches!(count, X::Integer(n) if n != 2 && n >= 0) { return Ok(()); }
            let n = r.below(4);
            let fun = f();
            let mut t = vec![fun, count.clone(), X::None];
            t.truncate(n);
            let mut rf = table(t);
            if r.one_in(4) && n > 0 { let k = r.below(n); rf.table[k] = Err(format!("operand {} failed", k)); }
            let what = format!("curry on operands {:?}", rf.table);
            note(&what);
            arm(&rf);
            let (mut env, _) = scope(r);
            let got = X::Apply(Box::new(named(&lib(), "fn", "curry")?), (0..n).map(op).collect()).eval(&mut env);
            if n < 2 { return agree(&what, &got, &Err(None)); }
            let w = (|| -> W {
                let f = rf.arg(0)?;
                match rf.arg(1)? { X::Integer(n) if n < 0 => Err(None), X::Integer(_) => Ok(X::None), _ => Ok(f) }
            })();
            if matches!((&got, &w), (Ok(X::Lambda(..)), Ok(X::None))) { return Ok(()); }
            agree(&what, &got, &w)?;
            let t = traced();
            if t != rf.trace { return fail(what, format!("evaluations {:?}", rf.trace), format!("evaluations {:?}", t)); }
            Ok(())
        }
        6 | 7 => {
            let name = *r.pick(&["id", "const", "flip", "compose"]);
            let n = match name { "id" => 1, "const" => 2, _ => 3 };
            let t = match name {
                "flip" => vec![target(r, 2), operand(r), operand(r)],
                "compose" => vec![target(r, 1), target(r, 1), operand(r)],
                _ => vec![operand(r), operand(r)],
            };
            let mut rf = table(t);
            let m = if r.one_in(4) { 1 + r.below(n) } else { n };
            if r.one_in(4) { let k = r.below(n); rf.table[k] = Err(format!("operand {} failed", k)); }
            if r.one_in(4) { rf.mode = failing(1 + r.below(2)); }
            let start = named(&lib(), "fn", name)?;
            let fun = f();
            drive(r, name, start, 0, n, m, &mut rf, |_| Ok(()), |rf, v| match name {
                "flip" => rf.call(&fun, vec![v[2].clone(), v[1].clone()]),
                "compose" => { let y = rf.call(&fun, vec![v[2].clone()])?; rf.call(&fun, vec![y]) }
                _ => Ok(v[0].clone()),
            }, true)
        }
        8 => {
            let n = r.below(6);
            let l: Vec<X> = (0..n).map(|_| data(r, 1)).collect();
            let fun = if n > 0 && n < 6 { target(r, n) } else { f() };
            let mut rf = table(vec![fun, if r.one_in(8) { data(r, 0) } else { X::List(l) }, X::None]);
            if r.one_in(6) { let k = r.below(2); rf.table[k] = Err(format!("operand {} failed", k)); }
            if r.one_in(6) { rf.mode = failing(1); }
            let m = if r.one_in(8) { r.below(4) } else { 2 };
            let what = format!("apply on operands {:?}", &rf.table[..m]);
            note(&what);
            arm(&rf);
            let (mut env, _) = scope(r);
            let got = X::Apply(Box::new(named(&lib(), "fn", "apply")?), (0..m).map(op).collect()).eval(&mut env);
            if m != 2 { return agree(&what, &got, &Err(None)); }
            let fun = f();
            let w = (|| -> W {
                rf.arg(0)?;
                match rf.arg(1)? { X::List(l) => rf.call(&fun, l), _ => Err(None) }
            })();
            agree(&what, &got, &w)?;
            let t = traced();
            if t != rf.trace { return fail(what, format!("evaluations {:?}", rf.trace), format!("evaluations {:?}", t)); }
            Ok(())
        }
        _ => {
            // the library's own curried functions
            let (module, name) = *r.pick(&[("", "+"), ("", "*"), ("", "//"), ("", "%"), ("list", "take"), ("list", "drop"), ("string", "split"), ("math", "rsh"), ("math", "a-rsh"), ("math", "l-rsh"), ("math", "log")]);
            let callee = named(&lib(), module, name)?;
            let t = match module {
                "list" => { let l = items(r); vec![count(r, l.len()), X::List(l)] }
                "string" => vec![X::String([",", "", "a", "日"][r.below(4)].into()), X::String(["a,b,,c", "", "日本a", ",", "arg0,arg1"][r.below(5)].into())],
                "math" => vec![X::Integer(r.below(70) as i64), X::Integer(r.below(70) as i64)],
                _ => match r.below(3) { 0 => vec![data(r, 1), data(r, 1)], 1 => vec![X::List(items(r)), X::List(items(r))], _ => vec![X::Integer(r.below(90) as i64 - 40), X::Integer(r.below(90) as i64 - 40)] },
            };
            let mut rf = table(t);
            spoil(r, &mut rf.table);
            // repetition by large amounts only exhausts the memory
            if name == "*" { for x in rf.table.iter_mut() { if matches!(x, Ok(X::Integer(n)) if *n > 1000) { *x = Ok(X::Integer(5)); } } }
            // what it answers to both operands at once where nothing else is bound
            arm(&rf);
            let direct = if name == "+" { X::Apply(Box::new(callee.clone()), vec![op(1), op(0)]) } else { X::Apply(Box::new(if module == "string" { callee.clone() } else { find_builtin(&callee).unwrap_or(callee.clone()) }), vec![op(0), op(1)]) };
            note(format!("{} on {:?}", name, rf.table));
            let direct = direct.eval(&mut lib());
            let (mut env, mut had) = scope(r);
            let what = format!("{} on operands {:?}, one at a time", name, rf.table);
            note(&what);
            let mut x = X::Apply(Box::new(callee.clone()), vec![op(0)]);
            if r.one_in(2) {
                match x.eval(&mut env) { Ok(v) => x = v, Err(_) if direct.is_err() => return Ok(()), Err(e) => return fail(what, "a function", format!("{:?}", e)) }
                if r.one_in(2) { (env, had) = scope(r); }
            }
            let got = if name != "+" && r.one_in(3) { X::Apply(Box::new(callee), vec![op(0), op(1)]).eval(&mut env) } else { X::Apply(Box::new(x), vec![op(1)]).eval(&mut env) };
            agree(&what, &got, &direct.map_err(|_| None))?;
            let now: Vec<_> = NAMES.iter().map(|n| env.get(n)).collect();
            if now != had { return fail(what, format!("{:?} to be {:?} as before", NAMES, had), format!("{:?}", now)); }
            Ok(())
        }
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C01", fixed: none, case: c01, what: "functions made by fn@curry of recording functions and of chains of Dune functions, fn@id, const, flip, compose and apply, and the library's own curried functions, with operands given together, in groups or later in another scope, failing operands and calls, in scopes where the parameters' names are bound", threads: 0 }]
}
