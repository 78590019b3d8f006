//! Names, programs and directories of the running scope: sys@... and os@cd, with real files in
//! the scratch directory.
use super::p_arith::same;
use super::p_core::agree;
use super::p_lib::*;
use super::util::*;
use dune::{Environment, Error, Expression as X};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

static PROCESS_DIR: Mutex<()> = Mutex::new(());
const PROGRAMS: &[&str] = &["xa = 5; xb = xa", "xb = xa", "xa", "1 + 2", "", "# nothing", "(1 2", "xc = \"é日\"; xc", "let xb = 3", "xa = [1, 2]; x -> xa", "if True { xa = 1 } else { xa = 2 }", "no-such-function 1", "xa = 1; ]", "\"a\\nb\"", "{ xb = 4; xb }", "xa = 1 xb", "'xa", "xb = '(xc = 2); xb"];
const NAMES: &[&str] = &["f", "g.ds", "12", "d/h", "d", "d/e", "link", "dlink", "away", "gone", "é", "d/../f", "./d/./h", "..", "", ".", "f/..", "odd", "odd/in", "raw", "d/", "e e"];
/// code that equals itself: a NaN inside code would make the comparison fail
fn effect(r: &mut Rng, d: usize) -> X {
    loop {
        let e = super::p_core::effect(r, d);
        if !format!("{:?}", e).contains("NaN") { return e; }
    }
}
struct Tree { top: PathBuf }
impl Drop for Tree {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.top); }
}
fn tree(r: &mut Rng, ix: u64) -> Tree {
    use std::os::unix::ffi::OsStrExt;
    let base = std::env::var("VX_SCRATCH").expect("VX_SCRATCH");
    let top = std::fs::canonicalize(&base).unwrap().join(format!("case-{}", ix));
    let _ = std::fs::remove_dir_all(&top);
    std::fs::create_dir_all(top.join("here/d/e")).unwrap();
    let t = Tree { top: top.clone() };
    let here = top.join("here");
    for n in ["f", "g.ds", "12", "d/h", "é", "e e"] {
        if !r.one_in(4) { let _ = std::fs::write(here.join(n), r.pick(PROGRAMS)); }
    }
    // the same names, seen from somewhere else
    for n in ["f", "d/f", "d/12", "d/e/f"] { if r.one_in(3) { let _ = std::fs::write(if n == "f" { top.join(n) } else { here.join(n) }, "xc = \"elsewhere\"; xc"); } }
    let _ = std::fs::write(here.join("raw"), [b'1', 0xff, b'2']);
    let l = std::os::unix::fs::symlink::<&str, PathBuf>;
    let _ = l("d/h", here.join("link"));
    let _ = l("d/e", here.join("dlink"));
    let _ = l("nowhere", here.join("gone"));
    let _ = l("..", here.join("away"));
    let odd = top.join(std::ffi::OsStr::from_bytes(b"o\xffdd"));
    let _ = std::fs::create_dir(&odd);
    let _ = std::fs::write(odd.join("in"), "xa = 9; xa");
    let _ = std::os::unix::fs::symlink(&odd, here.join("odd"));
    t
}
fn directory(e: &Environment, outer: &Environment) -> String {
    match e.bindings.get("CWD").or(outer.bindings.get("CWD")) { Some(X::String(p)) => p.clone(), _ => "/".into() }
}
fn no<T>() -> Result<T, Error> { Err(Error::CustomError("expected to fail".into())) }
fn y01(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let all: &[(&str, &str)] = &[("sys", "parse"), ("sys", "quote"), ("sys", "eval"), ("sys", "exec"), ("sys", "set"), ("sys", "unset"), ("sys", "defined?"), ("sys", "cwd"), ("sys", "env"), ("sys", "include"), ("sys", "import"), ("sys", "cd"), ("os", "cd"), ("sys", "include"), ("sys", "import"), ("", "cd"), [("", "exit"), ("", "quit"), ("os", "exit")][(ix / 17 % 3) as usize]];
    let (module, name) = all[(ix % all.len() as u64) as usize];
    let files = matches!(name, "include" | "import" | "cd");
    let t = if files { Some(tree(r, ix)) } else { None };
    let os = name == "cd" && module != "sys";
    let _lock = if os { Some(PROCESS_DIR.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
    let from = std::env::var("VX_SCRATCH").unwrap();
    if os { std::env::set_current_dir(&from).unwrap(); }
    let mut outer = lib();
    for n in ["xa", "xb", "xc"] { if r.one_in(3) { outer.define(n, if r.one_in(6) { X::None } else { X::String(format!("outer {}", n)) }); } }
    let forked = r.one_in(2);
    let dir = t.as_ref().map(|t| t.top.join("here").to_str().unwrap().to_string()).unwrap_or("/nowhere/at all".into());
    match r.below(if files { 6 } else { 4 }) { 0 if !files => {} 1 if !files => { outer.define("CWD", X::Integer(3)); } _ => { outer.define("CWD", X::String(dir.clone())); } }
    let mut env = outer.clone();
    if forked { env = Environment::default(); env.set_parent(outer.clone()); }
    if forked && r.one_in(3) { env.define("CWD", X::String(if files { format!("{}/d", dir) } else { "/a".into() })); }
    for n in ["xa", "xb", "xc"] { if r.one_in(2) { let v = match r.below(8) { 0 => X::None, 1 => X::Boolean(false), 2 => X::String("".into()), 3 => X::Symbol("xb".into()), k => X::Integer(k as i64) }; env.define(n, v); } }
    let program = r.pick(PROGRAMS).to_string();
    let body = effect(r, 2);
    let a_name = |r: &mut Rng| match r.below(6) { 0 => X::String(r.pick(&["xa", " xa", "xb ", "Xc", "xa\n", "", "'xa'", "x a"]).to_string()), 1 => X::Integer(12), 2 => X::Group(Box::new(X::Symbol("xa".into()))), 3 => X::Symbol("CWD".into()), _ => X::Symbol(r.pick(&["xa", "xb", "xc", "nowhere", "é"]).to_string()) };
    let mut args = match name {
        "parse" => vec![match r.below(6) { 0 => data(r, 1), 1 => X::Quote(Box::new(effect(r, 1))), 2 => X::Do(vec![effect(r, 1), X::String(program.clone())]), _ => X::String(program.clone()) }],
        "quote" => vec![effect(r, 2)],
        "eval" | "exec" => vec![if r.one_in(2) { X::Quote(Box::new(body.clone())) } else { X::Do(vec![effect(r, 1), X::Quote(Box::new(body.clone()))]) }],
        "set" => vec![a_name(r), effect(r, 2)],
        "unset" | "defined?" => vec![a_name(r)],
        "include" | "import" | "cd" => {
            let n = r.pick(NAMES).to_string();
            let n = if r.one_in(6) { format!("{}/{}", dir, n) } else { n };
            vec![match r.below(8) { 0 => X::Integer(12), 1 => X::Symbol("f".into()), 2 => X::Symbol("d".into()), 3 => X::Do(vec![effect(r, 1), X::String(n)]), 4 => data(r, 0), _ => X::String(n) }]
        }
        "exit" | "quit" => {
            let n = X::Integer(match r.below(4) { 0 => *r.pick(&[0, 1, 2, 3, 127, 128, 254, 255, 256, 257, -1, -255, -256, 65536, i64::MAX, i64::MIN, (1 << 32) | 5, (1 << 31) | 9, -(1 << 40) + 77]), 1 => r.next() as i64, _ => r.below(256) as i64 });
            vec![match r.below(8) { 0 => data(r, 1), 1 => X::Quote(Box::new(n)), 2 | 3 => X::Do(vec![effect(r, 1), n]), 4 => X::Symbol("xa".into()), 5 => X::Float(r.below(4) as f64), 6 => X::String(format!("{}", n)), _ => n }]
        }
        _ => vec![],
    };
    if matches!(name, "exit" | "quit") && r.one_in(3) { args.push(X::Integer(r.below(256) as i64)); }
    match r.below(12) { 0 => args.clear(), 1 => args.push(effect(r, 1)), 2 if !args.is_empty() && !matches!(name, "set" | "unset" | "defined?" | "quote") => args[0] = X::Apply(Box::new(X::Integer(1)), vec![X::Integer(2)]), _ => {} }
    let what = format!("{}@{} of {:?} in {:?} where {:?}", module, name, args, directory(&env, &outer), ["xa", "xb", "xc"].iter().map(|n| (n.to_string(), env.get(n), env.bindings.contains_key(*n))).collect::<Vec<_>>());
    note(&what);
    let before = env.clone();
    let mut after = before.clone();
    let there = |v: &str| std::fs::canonicalize(Path::new(&directory(&before, &outer)).join(v)).ok();
    let arity = match name { "set" => 2, "cwd" | "env" | "exit" | "quit" => args.len(), "eval" | "exec" => args.len().max(1), _ => 1 };
    let mut goes: Option<PathBuf> = None;
    let mut leaves: Option<i32> = None;
    let want: Vec<(Result<X, Error>, Environment)> = if args.len() != arity { vec![(no(), before.clone())] } else {
        match name {
            "exit" | "quit" => if args.is_empty() { leaves = Some(0); vec![] } else {
                match args[0].clone().eval(&mut after) { Ok(X::Integer(n)) => { leaves = Some((n & 0xff) as i32); vec![] } _ => vec![(no(), after)] }
            },
            "quote" => vec![(Ok(X::Quote(Box::new(args[0].clone()))), after)],
            "set" => { after.bindings.insert(format!("{}", args[0]), args[1].clone()); vec![(Ok(X::None), after)] }
            "unset" => { after.bindings.remove(&format!("{}", args[0])); vec![(Ok(X::None), after)] }
            "defined?" => { let n = format!("{}", args[0]); vec![(Ok(X::Boolean(after.bindings.contains_key(&n) || forked && outer.bindings.contains_key(&n))), after)] }
            "cwd" => vec![(Ok(X::String(directory(&before, &outer))), after)],
            "env" => vec![(Ok(X::Map(before.bindings.clone())), after)],
            _ => match args[0].clone().eval(&mut after) {
                Err(e) => vec![(Err(e), after)],
                Ok(v) => match name {
                    "parse" => vec![(Ok(dune::parse_script(&format!("{}", v)).unwrap_or(X::None)), after)],
                    "eval" => { let (mut a, mut b) = (before.clone(), after.clone()); vec![(v.clone().eval(&mut a), after.clone()), (v.eval(&mut b), after)] }
                    "exec" => { let x = v.eval(&mut after); vec![(x, after)] }
                    "cd" => match there(&match &v { X::Symbol(s) | X::String(s) => s.clone(), v => format!("{}", v) }) {
                        Some(p) if p.to_str().is_some() && (!os || p.is_dir()) => { goes = Some(p.clone()); after.bindings.insert("CWD".into(), X::String(p.to_str().unwrap().into())); vec![(Ok(X::None), after)] }
                        _ => vec![(no(), after)],
                    },
                    _ => match there(&format!("{}", v)).and_then(|p| std::fs::read(p).ok()).and_then(|b| String::from_utf8(b).ok()).and_then(|s| dune::parse_script(&s).ok()) {
                        None => vec![(no(), after)],
                        Some(x) if name == "include" => { let y = x.eval(&mut after); vec![(y, after)] }
                        Some(x) => { let (mut a, mut b) = (before.clone(), after.clone()); vec![(x.clone().eval(&mut b), after.clone()), (x.eval(&mut a), after)] }
                    },
                },
            },
        }
    };
    if matches!(name, "exit" | "quit") && std::env::var_os("VX_EXIT").is_none() {
        // the case again, in a process of its own
        let o = std::process::Command::new("/proc/self/exe").args(["--prop", "Y01", "--seed", &seed.to_string(), "--index", &ix.to_string()]).env("VX_EXIT", "1").stdin(std::process::Stdio::null()).output();
        let o = match o { Ok(o) => o, Err(_) => return Ok(()) };
        let said = String::from_utf8_lossy(&o.stdout).to_string();
        let fine = match leaves { Some(n) => o.status.code() == Some(n) && said.is_empty(), None => said.contains("\"agree\": true") };
        if !fine {
            let w = match leaves { Some(n) => format!("the process to end, leaving {}", n), None => "an error".into() };
            return fail(what, w, format!("{:?}, having said {:?}", o.status, said));
        }
        return Ok(());
    }
    let callee = named(&before, module, name)?;
    let got = X::Apply(Box::new(callee), args).eval(&mut env);
    let at = if os { let d = std::env::current_dir(); std::env::set_current_dir(&from).unwrap(); Some(d) } else { None };
    agree(&what, (got, &env), &want)?;
    if let (true, Some(p)) = (name == "cd", want[0].1.bindings.get("CWD")) {
        if !same(&X::String(directory(&env, &outer)), p) { return fail(what, format!("the scope to be in {:?}", p), directory(&env, &outer)); }
    }
    if let Some(d) = at {
        let d = d.unwrap_or_default();
        let w = goes.unwrap_or(std::fs::canonicalize(&from).unwrap());
        if d != w { return fail(what, format!("the process to be in {:?}", w), format!("{:?}", d)); }
    }
    // what encloses the scope is as it was
    for n in ["xa", "xb", "xc", "CWD", "nowhere", "12"] {
        let mut e = env.clone();
        e.bindings.remove(n);
        if forked && !same(&e.get(n).unwrap_or(X::None), &outer.get(n).unwrap_or(X::None)) {
            return fail(what, format!("{} of the enclosing scope as it was", n), format!("{:?}", e.get(n)));
        }
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "Y01", fixed: none, case: y01, what: "sys@... and os@cd against reference implementations, on real files, and what they leave of the scope", threads: 8 }]
}
