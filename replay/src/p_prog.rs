//! X02: running programs: which, where, with what words and names, and what comes back. Each run
//! is recorded by a script in the scratch directory, from /proc.
use super::p_core::agree;
use super::p_lib::*;
use super::util::*;
use dune::{Environment, Error, Expression as X};
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use std::sync::Once;

static SETUP: Once = Once::new();
fn scratch() -> PathBuf {
    std::fs::canonicalize(std::env::var("VX_SCRATCH").expect("VX_SCRATCH")).expect("scratch")
}
fn setup() {
    SETUP.call_once(|| {
        let f = scratch().join("record");
        let _ = std::fs::write(&f, "#!/bin/sh\n/bin/cat /proc/$$/environ > \"$0.env\"\n/bin/cat /proc/$$/cmdline >> \"$0.args\"\npwd -P > \"$0.dir\"\n[ \"$1\" = fail ] && exit 3\n[ \"$1\" = die ] && kill -9 $$\nexit 0\n");
        use std::os::unix::fs::PermissionsExt;
        let _ = std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755));
        let odd = scratch().join("garbage");
        let _ = std::fs::write(&odd, "\u{1}\u{2}\u{3}");
        let _ = std::fs::set_permissions(&odd, std::fs::Permissions::from_mode(0o755));
        std::thread::sleep(std::time::Duration::from_millis(50));
    });
}
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}
fn flat(v: X, out: &mut Vec<X>) {
    match v { X::List(l) => for x in l { flat(x, out) }, X::Group(g) => flat(*g, out), v => out.push(v) }
}
fn word(v: X) -> Option<String> {
    match v { X::None => None, X::String(s) => Some(s), X::Bytes(b) => Some(String::from_utf8_lossy(&b).into_owned()), v => Some(format!("{}", v)) }
}
fn operand(r: &mut Rng) -> X {
    match r.below(9) {
        0 => X::List((0..r.below(4)).map(|_| data(r, 1)).collect()),
        1 => X::Quote(Box::new(X::Group(Box::new(X::List(vec![data(r, 1), X::None]))))),
        2 => X::String(r.pick(&["", "a b", "-x", "é日", "--", "$HOME", "*", "\"q\"", "'", "a\nb", "\\", "fail", "die"]).to_string()),
        3 => X::Symbol(r.pick(&["xa", "xb", "word", "CWD"]).to_string()),
        4 => X::None,
        5 => X::Bytes(r.pick(&[&b"ab"[..], b"", b"\xff\xc3x", b"\xc3\xa9"]).to_vec()),
        6 => X::Quote(Box::new(data(r, 2))),
        7 => super::p_core::effect(r, 2),
        _ => data(r, 1),
    }
}
fn kind(x: &Result<X, Error>) -> String {
    match x { Ok(_) => "a value".into(), Err(e) => match e { Error::ProgramNotFound(n) => format!("no program {:?}", n), Error::PermissionDenied(x) => format!("not permitted: {:?}", x), Error::CommandFailed(n, _) => format!("{:?} failed", n), _ => "another error".into() } }
}
fn x02(seed: u64, ix: u64) -> Res {
    setup();
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let top = Dir(scratch().join(format!("run-{}", ix)));
    let _ = std::fs::remove_dir_all(&top.0);
    std::fs::create_dir_all(top.0.join("here/é e")).unwrap();
    std::fs::create_dir_all(top.0.join("there")).unwrap();
    let _ = std::os::unix::fs::symlink("../record", top.0.join("prog"));
    let _ = std::os::unix::fs::symlink("../garbage", top.0.join("odd"));
    let _ = std::fs::write(top.0.join("data"), "text");
    let text = |p: &str| top.0.join(p).to_str().unwrap().to_string();
    let mut outer = if r.one_in(8) { lib() } else { Environment::default() };
    outer.define("VX_OUTER", X::String("outer".into()));
    let mut env = Environment::default();
    env.set_parent(outer);
    let dir = r.pick(&["here", "here", "here/é e", "there", "none", "data"]).to_string();
    if r.one_in(5) { env.define("CWD", X::String(text("here"))); }
    match r.below(8) { 0 => {} 1 => { env.define("CWD", X::Integer(3)); } _ => { env.define("CWD", X::String(text(&dir))); } }
    for n in ["xa", "xb", "VX_A", "HOME", "é", "LONG", "A B"] {
        if r.one_in(2) { continue; }
        let v = match r.below(9) {
            0 => X::String("é".repeat(510 + r.below(5))),
            1 => X::String("y".repeat(1022 + r.below(5))),
            2 => X::Bytes((0..r.below(300)).map(|i| i as u8).collect()),
            3 => X::List((0..r.below(400)).map(|i| X::Integer(i as i64)).collect()),
            4 => X::Quote(Box::new(X::Symbol("xb".into()))),
            5 => X::String("".into()),
            _ => data(r, 1),
        };
        env.define(n, v);
    }
    let which = r.pick(&["prog", "prog", "prog", "prog", "prog", "prog", "none", "data", "there", "odd"]).to_string();
    let path = text(&which);
    let callee = match r.below(7) {
        0 => X::Symbol(path.clone()),
        1 => { env.define("xc", X::String(path.clone())); X::Symbol("xc".into()) }
        2 => X::Quote(Box::new(X::Symbol(path.clone()))),
        3 => X::Do(vec![super::p_core::effect(r, 1), X::String(path.clone())]),
        4 => X::Do(vec![X::Assign("VX_A".into(), Box::new(X::String("first".into()))), X::String(path.clone())]),
        _ => X::String(path.clone()),
    };
    let mut args: Vec<X> = (0..r.below(5)).map(|_| operand(r)).collect();
    match r.below(8) {
        0 => args.push(X::Do(vec![X::Assign("VX_A".into(), Box::new(X::String("late".into()))), X::Integer(1)])),
        1 => args.push(X::Do(vec![X::Assign("CWD".into(), Box::new(X::String(text("there")))), X::Symbol("CWD".into())])),
        2 if r.one_in(3) => args.push(X::Apply(Box::new(X::Integer(1)), vec![X::Integer(2)])),
        _ => {}
    }
    let call = X::Apply(Box::new(callee.clone()), args.clone());
    let what = format!("{:?} where {:?}", call, env.bindings.iter().map(|(k, v)| (k, format!("{:?}", v).chars().take(60).collect::<String>())).collect::<Vec<_>>());
    note(&what);
    let before = env.clone();
    // the reference
    let mut after = before.clone();
    let mut ran: Option<(Vec<String>, BTreeMap<String, String>, String)> = None;
    let want: Result<X, Error> = (|| {
        match callee.eval(&mut after)? { X::Symbol(_) | X::String(_) => {} _ => return Err(Error::CustomError("not a program".into())) }
        let vars: BTreeMap<String, String> = after.bindings.iter().map(|(k, v)| (k.clone(), v.to_string())).filter(|(_, v)| v.len() <= 1024).collect();
        let mut words = vec![];
        for a in &args { let mut f = vec![]; flat(a.eval(&mut after)?, &mut f); words.extend(f.into_iter().filter_map(word)); }
        ran = Some((words, vars, match after.get("CWD") { Some(X::String(d)) => d, _ => "/".into() }));
        Ok(X::None)
    })();
    let got = call.eval(&mut env);
    let mut wants = None;
    let want = match (&want, &ran) {
        (Ok(_), Some((w, v, d))) => {
            let nul = w.iter().chain(v.values()).any(|x| x.contains('\0'));
            if nul { wants = Some(format!("{:?} failed", path)); }
            else if !std::path::Path::new(d).is_dir() || which == "none" { if std::path::Path::new(d).is_dir() { wants = Some(format!("no program {:?}", path)); } else { wants = Some(String::new()); } }
            else if which == "data" || which == "there" { wants = Some(format!("not permitted: {:?}", call)); }
            else if which == "odd" { wants = Some(format!("{:?} failed", path)); }
            if wants.is_some() { Err(Error::CustomError("expected to fail".into())) } else { want }
        }
        _ => want,
    };
    if let Some(k) = wants.as_ref().filter(|k| !k.is_empty()) {
        if &kind(&got) != k { return fail(what, k, kind(&got)); }
    }
    let shown_want = want.is_ok();
    agree(&what, (got, &env), &[(want, after)])?;
    let read = |x: &str| std::fs::read(top.0.join(format!("prog.{}", x))).ok();
    let (a, e, d) = (read("args"), read("env"), read("dir"));
    if !shown_want || ran.is_none() {
        return if a.is_some() { fail(what, "nothing to run", format!("a program run with {:?}", String::from_utf8_lossy(&a.unwrap()))) } else { Ok(()) };
    }
    let (words, vars, at) = ran.unwrap();
    let split = |b: Vec<u8>| { let mut v: Vec<Vec<u8>> = b.split(|c| *c == 0).map(|x| x.to_vec()).collect(); if v.last().map_or(false, |x| x.is_empty()) { v.pop(); } v };
    let (a, mut e, d) = match (a, e, d) { (Some(a), Some(e), Some(d)) => (split(a), split(e), d), _ => return fail(what, format!("{} to run", path), "it did not") };
    let w: Vec<Vec<u8>> = words.iter().map(|x| x.clone().into_bytes()).collect();
    if a.get(2..) != Some(&w[..]) { return fail(what, format!("one run with the words {:?}", words), format!("{:?}", a.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>())); }
    let there = std::fs::canonicalize(&at).unwrap_or_default();
    if d != [there.to_str().unwrap_or("").as_bytes(), b"\n"].concat() { return fail(what, format!("a run in {:?}", there), String::from_utf8_lossy(&d)); }
    let mut all: BTreeMap<Vec<u8>, Vec<u8>> = std::env::vars_os().map(|(k, v)| (k.into_vec(), v.into_vec())).collect();
    for (k, v) in &vars { all.insert(k.clone().into_bytes(), v.clone().into_bytes()); }
    let mut v: Vec<Vec<u8>> = all.into_iter().map(|(k, v)| [k, b"=".to_vec(), v].concat()).collect();
    v.sort();
    e.sort();
    if v != e {
        let show = |a: &Vec<Vec<u8>>, b: &Vec<Vec<u8>>| a.iter().filter(|x| !b.contains(x)).map(|x| String::from_utf8_lossy(x).chars().take(90).collect::<String>()).collect::<Vec<_>>();
        return fail(what, format!("the names {:?} too", show(&v, &e)), format!("{:?} instead", show(&e, &v)));
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "X02", fixed: none, case: x02, what: "calls of programs that record their words, names and directory, of missing, forbidden and unfit files, and of words and names with a NUL, against a direct definition", threads: 8 }]
}
