//! Error codes and the try function against a reference.
use super::util::*;
use dune::{Environment, Error, Expression as X};
use std::cell::RefCell;
use std::collections::BTreeSet;

thread_local! {
    static ERR: RefCell<Option<Error>> = RefCell::new(None);
    static VAL: RefCell<X> = RefCell::new(X::None);
    static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
    static LIB: RefCell<Option<Environment>> = RefCell::new(None);
}
fn lib() -> Environment {
    LIB.with(|l| {
        let mut l = l.borrow_mut();
        if l.is_none() {
            let mut e = Environment::new();
            crate::binary::init(&mut e);
            *l = Some(e);
        }
        l.as_ref().unwrap().clone()
    })
}
fn raise(_: Vec<X>, _: &mut Environment) -> Result<X, Error> {
    LOG.with(|l| l.borrow_mut().push("tried".into()));
    match ERR.with(|e| e.borrow().clone()) {
        Some(e) => Err(e),
        None => Ok(VAL.with(|v| v.borrow().clone())),
    }
}
fn handler(args: Vec<X>, env: &mut Environment) -> Result<X, Error> {
    let mut v = vec![];
    for a in args {
        v.push(a.eval(env)?);
    }
    LOG.with(|l| l.borrow_mut().push(format!("handled {:?}", v)));
    if VAL.with(|x| *x.borrow() == X::None) {
        return Err(Error::CustomError("the handler failed".into()));
    }
    Ok(X::Integer(4711))
}
const KINDS: &[&str] = &["cannot-apply", "symbol-not-defined", "command-failed", "for-non-list", "recursion-depth", "permission-denied", "program-not-found", "syntax-error", "custom-error"];
fn error(kind: &str, r: &mut Rng) -> Error {
    let x = match r.below(4) { 0 => X::None, 1 => X::List(vec![X::Integer(1)]), 2 => X::Symbol("a b".into()), _ => X::Integer(r.below(99) as i64) };
    let s = r.pick(&["", "x", "é\n", "no such \"thing\""]).to_string();
    match kind {
        "cannot-apply" => Error::CannotApply(x.clone(), vec![x; r.below(3)]),
        "symbol-not-defined" => Error::SymbolNotDefined(s),
        "command-failed" => Error::CommandFailed(s, vec![x; r.below(3)]),
        "for-non-list" => Error::ForNonList(x),
        "recursion-depth" => Error::RecursionDepth(x),
        "permission-denied" => Error::PermissionDenied(x),
        "program-not-found" => Error::ProgramNotFound(s),
        "syntax-error" if r.one_in(3) => {
            let part = |r: &mut Rng| { let c = *r.pick(&["a", "é", "\n", " ", "b\n"]); c.repeat(*r.pick(&[0, 1, 71, 72, 73, 150])) };
            let src = format!("{}let \"{}\n{}\" = {}", part(r).replace(|c| c != '\n', " "), part(r), part(r), part(r));
            match crate::parse(&src) { Err(e) => e, Ok(_) => Error::CustomError("?".into()) }
        }
        "syntax-error" => match crate::parse(*r.pick(&["(", "let", "1 +", "[1", "\"\\q\"", "if"])) { Err(e) => e, Ok(_) => Error::CustomError("?".into()) },
        _ => Error::CustomError(s),
    }
}
fn case(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let mut env = lib();
    let (tr, codes) = match env.get("err") {
        Some(X::Map(m)) => (m.get("try").cloned(), m.get("codes").cloned()),
        _ => (None, None),
    };
    let codes = match codes { Some(X::Map(m)) => m, c => return fail("err@codes", "a table", format!("{:?}", c)) };
    let tr = match tr { Some(t) => t, None => return fail("err@try", "a function", "nothing") };
    if ix == 0 {
        let mut seen = BTreeSet::new();
        for k in KINDS {
            match codes.get(*k) {
                Some(X::Integer(n)) => if !seen.insert(*n) { return fail(format!("err@codes@{}", k), "a code of its own", n); },
                c => return fail(format!("err@codes@{}", k), "a code", format!("{:?}", c)),
            }
        }
    }
    let kind = KINDS[(ix % KINDS.len() as u64) as usize];
    let fails = !r.one_in(4);
    let e = error(kind, r);
    let n = if r.one_in(10) { [0, 1, 3][r.below(3)] } else { 2 };
    let val = if r.one_in(3) { X::None } else { X::Integer(r.below(50) as i64) };
    ERR.with(|x| *x.borrow_mut() = if fails { Some(e.clone()) } else { None });
    VAL.with(|x| *x.borrow_mut() = val.clone());
    LOG.with(|x| x.borrow_mut().clear());
    let tried = X::Apply(Box::new(X::builtin("raise", raise, "")), vec![X::Integer(ix as i64)]);
    let args: Vec<X> = (0..n).map(|i| if i == 0 { tried.clone() } else { X::builtin("handler", handler, "") }).collect();
    let what = format!("try with {} operands, {}", n, if fails { format!("an expression failing with {:?}", e) } else { "an expression that succeeds".into() });
    note(&what);
    let got = X::Apply(Box::new(tr), args).eval(&mut env);
    let got = got.map_err(|e| e.to_string());
    let log = LOG.with(|l| l.borrow().clone());
    if n != 2 {
        if got.is_ok() { return fail(what, "an error", format!("{:?}", got)); }
        return Ok(());
    }
    let mut wlog = vec!["tried".to_string()];
    let want = if fails {
        let code = codes[kind].clone();
        let m = [("message", X::String(e.to_string())), ("code", code), ("expression", X::Quote(Box::new(tried)))];
        let m = X::Map(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
        wlog.push(format!("handled {:?}", vec![m.eval(&mut env).unwrap_or(X::None)]));
        if val == X::None { Err("the handler failed".to_string()) } else { Ok(X::Integer(4711)) }
    } else {
        Ok(val)
    };
    if got != want { return fail(what, format!("{:?}", want), format!("{:?}", got)); }
    if log != wlog { return fail(what, format!("{:?}", wlog), format!("{:?}", log)); }
    Ok(())
}
fn fixed() -> u64 {
    KINDS.len() as u64 * 4
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "R01", fixed, case, what: "try on expressions failing with every kind of error or succeeding, the handler's argument and the number of calls recorded, against the table of codes", threads: 0 }]
}
