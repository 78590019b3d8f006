//! E01 to E04: the real evaluator against the reference of interp.rs.
use super::interp::*;
use super::p_arith::value;
use super::util::*;
use dune::{Environment, Expression as X};
use std::sync::Once;

const NAMES: &[&str] = &["qa", "qb", "qc", "qd"];

// ------------------------------------------------------------------ a program that records how it was run
static SETUP: Once = Once::new();
fn scratch() -> String {
    std::env::var("VX_SCRATCH").unwrap_or_default()
}
fn script_of_thread() -> String {
    format!("{}/prog-{:?}", scratch(), std::thread::current().id()).replace(['(', ')'], "")
}
fn setup() {
    SETUP.call_once(|| {
        let s = scratch();
        if s.is_empty() {
            return;
        }
        let _ = std::fs::create_dir_all(format!("{}/d1", s));
        let _ = std::fs::create_dir_all(format!("{}/d2", s));
        let f = format!("{}/prog", s);
        let _ = std::fs::write(&f, "#!/bin/sh\n{ pwd -P | tr -d '\\n'; for a in \"$@\"; do printf '\\036%s' \"$a\"; done; printf '\\035'; } >> \"$0.log\"\n");
        use std::os::unix::fs::PermissionsExt;
        let _ = std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755));
        std::thread::sleep(std::time::Duration::from_millis(30));
    });
}

// ------------------------------------------------------------------ generating
#[derive(Clone)]
struct Gen {
    /// functions and macros too
    functions: bool,
    script: String,
    ticks: usize,
}
impl Gen {
    fn leaf(&self, r: &mut Rng) -> X {
        match r.below(12) {
            0 | 1 | 2 => X::Symbol(r.pick(NAMES).to_string()),
            3 => X::None,
            4 => X::Boolean(r.one_in(2)),
            5 => X::String(["", "qs", "é"][r.below(3)].into()),
            6 => X::Symbol("CWD".into()),
            7 => X::Bytes(vec![b'a', 255][..r.below(3)].to_vec()),
            8 => X::Float([0.0, 1.5, -0.0][r.below(3)]),
            _ => X::Integer(r.below(4) as i64),
        }
    }
    fn many(&mut self, r: &mut Rng, d: usize, max: usize) -> Vec<X> {
        (0..r.range(0, max)).map(|_| self.expr(r, d)).collect()
    }
    fn tick(&mut self, r: &mut Rng, d: usize) -> X {
        self.ticks += 1;
        let k = self.ticks as i64;
        let e = self.expr(r, d);
        match r.below(14) {
            0 => X::Apply(Box::new(probe(1)), vec![X::Integer(k)]),
            1 | 2 => X::Apply(Box::new(probe(2)), vec![X::String(r.pick(NAMES).to_string()), e]),
            _ => X::Apply(Box::new(probe(0)), vec![X::Integer(k), e]),
        }
    }
    fn lambda(&mut self, r: &mut Rng, d: usize) -> X {
        let mut e = Environment::new();
        if r.one_in(4) {
            e.bindings.insert(r.pick(NAMES).to_string(), self.leaf(r));
        }
        if r.one_in(8) {
            let mut p = Environment::new();
            p.bindings.insert(r.pick(NAMES).to_string(), self.leaf(r));
            e.set_parent(p);
        }
        X::Lambda(self.param(r), Box::new(self.expr(r, d)), e)
    }
    fn param(&self, r: &mut Rng) -> String {
        if self.script.is_empty() && r.one_in(20) { "CWD".into() } else { r.pick(NAMES).to_string() }
    }
    fn callee(&mut self, r: &mut Rng, d: usize) -> X {
        match r.below(6) {
            0 | 1 => self.lambda(r, d),
            2 => X::Macro(self.param(r), Box::new(self.expr(r, d))),
            3 => X::Lambda(self.param(r), Box::new(self.callee(r, d.saturating_sub(1).min(1))), Environment::new()),
            4 => X::Macro(self.param(r), Box::new(self.callee(r, d.saturating_sub(1).min(1)))),
            _ => X::Symbol(r.pick(NAMES).to_string()),
        }
    }
    fn expr(&mut self, r: &mut Rng, d: usize) -> X {
        if d == 0 {
            return self.leaf(r);
        }
        if self.functions && r.one_in(2) {
            return match r.below(10) {
                0 => self.lambda(r, d - 1),
                1 => X::Macro(self.param(r), Box::new(self.expr(r, d - 1))),
                2 => {
                    let f = self.callee(r, d - 1);
                    X::Assign(r.pick(NAMES).to_string(), Box::new(f))
                }
                _ => {
                    let f = self.callee(r, d - 1);
                    let n = [1, 1, 1, 2, 2, 3, 0][r.below(7)];
                    X::Apply(Box::new(f), (0..n).map(|_| self.expr(r, d - 1)).collect())
                }
            };
        }
        match r.below(22) {
            0 | 1 | 2 => X::Do(self.many(r, d - 1, 4)),
            3 | 4 => X::List(self.many(r, d - 1, 4)),
            5 => X::Map(self.many(r, d - 1, 3).into_iter().map(|x| (["b", "a", "c", ""][r.below(4)].to_string(), x)).collect()),
            6 | 7 | 8 => X::If(Box::new(self.expr(r, d - 1)), Box::new(self.expr(r, d - 1)), Box::new(self.expr(r, d - 1))),
            9 | 10 => {
                let l = if r.one_in(3) { self.expr(r, d - 1) } else { X::List(self.many(r, d - 1, 3)) };
                X::For(r.pick(NAMES).to_string(), Box::new(l), Box::new(self.expr(r, d - 1)))
            }
            11 | 12 => X::Assign(if self.script.is_empty() && r.one_in(12) { "CWD".into() } else { r.pick(NAMES).to_string() }, Box::new(self.expr(r, d - 1))),
            13 => X::Group(Box::new(self.expr(r, d - 1))),
            14 => X::Quote(Box::new(self.expr(r, d - 1))),
            15 => {
                let f = match r.below(4) {
                    0 => X::Symbol("qprog".into()),
                    1 => X::String("qprog é".into()),
                    _ => self.expr(r, d - 1),
                };
                X::Apply(Box::new(f), self.many(r, d - 1, 3))
            }
            16 | 17 if !self.script.is_empty() => X::Apply(Box::new(X::String(self.script.clone())), self.many(r, d - 1, 3)),
            _ => self.tick(r, d - 1),
        }
    }
}
fn nul(x: &X) -> bool {
    match x {
        X::Bytes(b) => b.iter().any(|c| *c < 32),
        X::String(s) => s.contains('\0'),
        X::List(v) => v.iter().any(nul),
        X::Map(m) => m.iter().any(|(k, v)| k.contains('\0') || nul(v)),
        _ => false,
    }
}
fn start(r: &mut Rng, g: &mut Gen) -> Environment {
    let mut e = Environment::new();
    for n in NAMES {
        if r.one_in(2) {
            let v = if g.functions && r.one_in(2) { g.callee(r, 2) } else { value(r, 1) };
            // values as evaluation leaves them
            let mut i = Ref::new();
            // (a program cannot be given a NUL)
            if nul(&v) {
                continue;
            }
            if let Ok(v) = i.eval(&v, &mut Environment::new(), 0) {
                e.bindings.insert(n.to_string(), v);
            }
        }
    }
    if r.one_in(3) {
        e.bindings.insert("CWD".into(), X::String(if r.one_in(2) { "/".into() } else { "/qdir".into() }));
    }
    if r.one_in(3) {
        let mut p = Environment::new();
        p.bindings.insert(r.pick(NAMES).to_string(), X::Integer(70));
        p.bindings.insert("qe".into(), X::Integer(71));
        if r.one_in(2) {
            let mut pp = Environment::new();
            pp.bindings.insert("qe".into(), X::Integer(72));
            pp.bindings.insert("qa".into(), X::Integer(73));
            p.set_parent(pp);
        }
        e.set_parent(p);
    }
    e
}
fn parse_log(s: &str) -> Vec<(String, Vec<String>)> {
    let mut runs: Vec<&str> = s.split('\x1d').collect();
    runs.pop();
    runs.iter()
        .map(|l| {
            let mut w = l.split('\x1e').map(|x| x.to_string());
            (w.next().unwrap_or_default(), w.collect())
        })
        .collect()
}
/// evaluate `e` in `env` with the real code and the reference
fn compare(e: &X, env: &Environment, script: &str, max_steps: usize) -> Res {
    let mut want_env = env.clone();
    let mut i = Ref::new();
    i.script = script.to_string();
    i.max_steps = max_steps;
    let want = match i.eval(e, &mut want_env, 0) {
        Ok(v) => Ok(v),
        Err(Stop::Error(x)) => Err(x),
        Err(Stop::Budget) => return Ok(()),
    };
    let input = || format!("evaluating {} where {} is bound", cut(show(e)), cut(show_env(env)));
    if max_steps > 30000 { note_file(input()) } else { note(input()) }
    TRACE.with(|t| t.borrow_mut().clear());
    let log = format!("{}.log", script);
    if !script.is_empty() {
        let _ = std::fs::write(&log, "");
    }
    let mut got_env = env.clone();
    let got = e.eval(&mut got_env);
    let ok = match (&got, &want) {
        (Ok(a), Ok(b)) => same(a, b),
        (Err(a), Err(b)) => same_error(a, b),
        _ => false,
    };
    let sh = |x: &Result<X, dune::Error>| match x {
        Ok(v) => format!("the value {}", cut(show(v))),
        Err(e) => format!("the error {}", show_error(e)),
    };
    if !ok {
        return fail(input(), sh(&want), sh(&got));
    }
    let t = TRACE.with(|t| t.borrow().clone());
    if t != i.trace {
        return fail(input(), format!("the evaluations {:?}", i.trace), format!("{:?}", t));
    }
    if !same_env(&got_env, &want_env) {
        return fail(input(), format!("leaves {}", cut(show_env(&want_env))), cut(show_env(&got_env)));
    }
    for n in NAMES.iter().chain(["qe", "CWD"].iter()) {
        let (a, b) = (got_env.get(n), lookup(&want_env, n));
        if match (&a, &b) { (None, None) => false, (Some(a), Some(b)) => !same(a, b), _ => true } {
            return fail(input(), format!("{} is {:?}", n, b), format!("{:?}", a));
        }
    }
    if !script.is_empty() {
        let real = parse_log(&std::fs::read_to_string(&log).unwrap_or_default());
        if real != i.runs {
            return fail(input(), format!("program runs (directory, words) {:?}", i.runs), format!("{:?}", real));
        }
    }
    Ok(())
}
fn random(seed: u64, ix: u64, functions: bool) -> Res {
    setup();
    let mut r = Rng::new(seed, ix);
    let mut script = String::new();
    if r.one_in(150) && !scratch().is_empty() {
        // this thread's own name for the recording program
        script = script_of_thread();
        if std::fs::symlink_metadata(&script).is_err() {
            let _ = std::os::unix::fs::symlink(format!("{}/prog", scratch()), &script);
        }
    }
    let mut g = Gen { functions, script: script.clone(), ticks: 0 };
    let mut env = start(&mut r, &mut g);
    if !script.is_empty() {
        let dir = std::fs::canonicalize(format!("{}/d{}", scratch(), 1 + r.below(2))).unwrap();
        env.bindings.insert("CWD".into(), X::String(dir.to_string_lossy().into_owned()));
        let mut args = g.many(&mut r, 2, 4);
        if r.one_in(2) {
            args.push(X::List(vec![X::String("a b".into()), X::None, X::List(vec![X::Integer(7), X::Boolean(true)])]));
        }
        let call = X::Apply(Box::new(X::String(script.clone())), args);
        let e = match r.below(4) {
            // from inside a function: the caller's directory
            0 if functions => X::Apply(Box::new(X::Lambda("qa".into(), Box::new(call), Environment::new())), vec![X::Integer(1)]),
            1 => X::Do(vec![call.clone(), call]),
            _ => call,
        };
        if uses_dir(&e) {
            return Ok(());
        }
        return compare(&e, &env, &script, 30000);
    }
    let d = r.range(1, 5);
    let e = g.expr(&mut r, d);
    compare(&e, &env, "", 30000)
}
/// the directory is changed, or a function is called inside: where programs run is then not ours to predict
fn uses_dir(e: &X) -> bool {
    show(e).contains("let CWD") || show(e).contains("CWD ->") || show(e).contains("CWD ~>") || show(e).contains("\"CWD\"")
}
fn e02(seed: u64, ix: u64) -> Res {
    random(seed, ix, false)
}
fn e03(seed: u64, ix: u64) -> Res {
    random(seed ^ 0x33, ix, true)
}
// ------------------------------------------------------------------ E04
fn e04(seed: u64, ix: u64) -> Res {
    setup();
    let mut r = Rng::new(seed ^ 0x44, ix);
    let mut g = Gen { functions: true, script: String::new(), ticks: 0 };
    let env = start(&mut r, &mut g);
    let e = match ix % 6 {
        0 => X::Quote(Box::new(g.expr(&mut r, 3))),
        1 => X::Symbol(match r.below(4) { 0 => "qe".into(), 1 => "CWD".into(), 2 => "".into(), _ => r.pick(NAMES).to_string() }),
        2 => X::Macro(g.param(&mut r), Box::new(g.expr(&mut r, 2))),
        3 => probe(r.below(3)),
        _ => value(&mut r, 0),
    };
    compare(&e, &env, "", 30000)
}
// ------------------------------------------------------------------ E01
const SHAPES: u64 = 22;
fn around(n: u64, e: X) -> X {
    let b = Box::new;
    let i = X::Integer;
    let s = |n: &str| X::Symbol(n.into());
    let lam = |p: &str, x: X| X::Lambda(p.into(), b(x), Environment::new());
    let mac = |p: &str, x: X| X::Macro(p.into(), b(x));
    match n {
        0 => X::Group(b(e)),
        1 => X::Assign("qc".into(), b(e)),
        2 => X::If(b(e), b(i(1)), b(i(2))),
        3 => X::If(b(X::Boolean(true)), b(e), b(i(2))),
        4 => X::If(b(X::None), b(i(1)), b(e)),
        5 => X::For("qc".into(), b(e), b(i(1))),
        6 => X::For("qc".into(), b(X::List(vec![i(1)])), b(e)),
        7 => X::List(vec![e]),
        8 => X::List(vec![i(1), e, i(2)]),
        9 => X::Map([("a".to_string(), e)].into_iter().collect()),
        10 => X::Do(vec![e]),
        11 => X::Do(vec![e, i(1)]),
        12 => X::Do(vec![i(1), e]),
        13 => X::Apply(b(e), vec![i(1)]),
        14 => X::Apply(b(s("qprog")), vec![i(1), e]),
        15 => X::Apply(b(lam("qc", s("qc"))), vec![e]),
        16 => X::Apply(b(lam("qc", e)), vec![i(1)]),
        17 => X::Apply(b(mac("qc", e)), vec![i(1)]),
        18 => X::Apply(b(mac("qc", s("qc"))), vec![e]),
        19 => X::Apply(b(lam("qc", lam("qd", s("qd")))), vec![i(1), e]),
        20 => X::Apply(b(mac("qc", mac("qd", e))), vec![i(1), i(2)]),
        _ => X::Apply(b(lam("qc", mac("qd", s("qc")))), vec![e, i(1)]),
    }
}
fn fixed_e01() -> u64 {
    SHAPES * 4 * 2 + SHAPES * SHAPES * 2
}
fn e01(seed: u64, ix: u64) -> Res {
    setup();
    let b = Box::new;
    let s = |n: &str| X::Symbol(n.into());
    let mut r = Rng::new(seed ^ 0x11, ix);
    let own = || X::Apply(b(s("qx")), vec![s("qx")]);
    let own2 = || X::Apply(b(s("qx")), vec![s("qx"), s("qy")]);
    let single = SHAPES * 4 * 2;
    let (body, kind) = if ix < single {
        let n = ix / 8;
        match ix % 8 {
            // many levels of one construct, none of them recursive
            k @ 0..=3 => {
                let depth = [798, 799, 800, 801][k as usize] / if n >= 13 { 1 } else { 1 };
                let mut e = X::Integer(1);
                for _ in 0..depth {
                    e = around(n, e);
                }
                return compare(&e, &Environment::new(), "", 100000);
            }
            4 => (around(n, own()), 0),
            5 => (around(n, own()), 1),
            6 => (around(n, own2()), 2),
            _ => (around(n, own2()), 3),
        }
    } else if ix < fixed_e01() {
        let k = ix - single;
        (around(k / 2 / SHAPES, around(k / 2 % SHAPES, own())), (k % 2) as u8)
    } else {
        let mut e = if r.one_in(2) { own() } else { own2() };
        let two = matches!(&e, X::Apply(_, a) if a.len() == 2);
        for _ in 0..r.below(6) {
            e = around(r.below(SHAPES as usize) as u64, e);
        }
        (e, r.below(2) as u8 + if two { 2 } else { 0 })
    };
    let f = match kind {
        0 => X::Lambda("qx".into(), b(body), Environment::new()),
        1 => X::Macro("qx".into(), b(body)),
        2 => X::Lambda("qx".into(), b(X::Lambda("qy".into(), b(body), Environment::new())), Environment::new()),
        _ => X::Macro("qx".into(), b(X::Macro("qy".into(), b(body)))),
    };
    let call = X::Apply(b(s("qf")), if kind < 2 { vec![s("qf")] } else { vec![s("qf"), X::Integer(1)] });
    let e = X::Do(vec![X::Assign("qf".into(), b(f)), call]);
    compare(&e, &Environment::new(), "", 100000)
}
pub fn props() -> Vec<Prop> {
    let zero = || 0u64;
    vec![
        Prop { id: "E01", fixed: fixed_e01, case: e01, threads: 4, what: "self-applying functions and macros around every construct and pair of constructs, and nests of 798 to 801 levels: result, bindings and error against a reference evaluator with a depth counter" },
        Prop { id: "E02", fixed: || 0, case: e02, threads: 0, what: "random expressions of blocks, lists, maps, if, for, assignments, quotes, program calls and probes: result, bindings, order of evaluation and program runs against a reference evaluator" },
        Prop { id: "E03", fixed: || 0, case: e03, threads: 0, what: "random expressions with functions and macros called with zero to three arguments, in scopes with parents: result, bindings, order of evaluation and program runs against a reference evaluator" },
        Prop { id: "E04", fixed: || 0, case: e04, threads: 0, what: "values, quotes and names in random scopes: result and bindings" },
    ]
}
