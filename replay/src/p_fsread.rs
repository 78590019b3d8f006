//! The functions that look at files, on real directories in the scratch
//! directory, against what reading them directly shows.
use super::p_arith::same;
use super::p_lib::{arm, lib, op, traced, Mode, Ref, W};
use super::util::*;
use dune::{Error, Expression as X};
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};

const NAMES: &[&str] = &["a", "b", "5", "a b", "é", "a.txt", "None", "x*", ".h"];
const LINES: &[&str] = &["", "one", "two\r", "é ü", " ", "\r", "a\rb", "\u{2028}", "long line of text"];
fn content(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let n = r.below(6);
    for i in 0..n {
        v.extend(r.pick(LINES).as_bytes());
        if i + 1 < n || r.one_in(2) {
            v.push(b'\n');
        }
    }
    if r.one_in(6) {
        v.push(0xff);
    }
    v
}
fn grow(r: &mut Rng, top: &Path, at: &Path, depth: usize, made: &mut Vec<PathBuf>, odd: bool) {
    let mut names: Vec<Vec<u8>> = NAMES.iter().filter(|_| r.one_in(2)).map(|s| s.as_bytes().to_vec()).collect();
    if odd {
        names.push(b"\xffz".to_vec());
        names.push(b"o\xc3".to_vec());
    }
    for n in names {
        let p = at.join(OsStr::from_bytes(&n));
        match r.below(10) {
            0..=4 => {
                std::fs::write(&p, content(r)).unwrap();
                if r.one_in(20) {
                    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0)).unwrap();
                }
            }
            5..=7 => {
                std::fs::create_dir(&p).unwrap();
                if depth > 0 {
                    let o = odd && r.one_in(2);
                    grow(r, top, &p, depth - 1, made, o);
                }
                if r.one_in(20) {
                    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o300)).unwrap();
                }
            }
            _ => {
                let t = match r.below(5) {
                    0 => PathBuf::from("nowhere"),
                    1 if !made.is_empty() => top.join(r.pick(&made[..])),
                    2 if odd => PathBuf::from(OsStr::from_bytes(b"\xffz")),
                    3 => PathBuf::from(r.pick(NAMES)),
                    _ => PathBuf::from("..").join(r.pick(NAMES)),
                };
                symlink(t, &p).unwrap();
            }
        }
        made.push(p.strip_prefix(top).unwrap().to_path_buf());
    }
}
fn spell(r: &mut Rng, cwd: &Path, made: &[PathBuf]) -> String {
    let p = match r.below(6) {
        0..=3 if !made.is_empty() => r.pick(made).clone(),
        4 => PathBuf::from(r.pick(&["", ".", "..", "nothing", "a/..", "a/.", "none/such", "a/a/a", "/dev/null"])),
        _ => PathBuf::from(r.pick(NAMES)),
    };
    let s = match p.to_str() {
        Some(s) => s.to_string(),
        None => return "a".into(),
    };
    match r.below(6) {
        0 => cwd.join(&p).to_str().unwrap().to_string(),
        1 if !s.starts_with("/") => format!("./{}", s),
        2 if !s.starts_with("/dev") => s.replace('/', "//"),
        3 if !s.is_empty() && !s.starts_with("/dev") => format!("{}/", s),
        _ => s,
    }
}
/// an operand whose value is shown as this text
fn as_path(r: &mut Rng, s: String) -> X {
    match r.below(6) {
        0 => X::Symbol(s),
        1 if s == "5" => X::Integer(5),
        2 if s == "None" => X::None,
        _ => X::String(s),
    }
}
fn lines(t: &str) -> Vec<&str> {
    t.split_inclusive('\n').map(|l| match l.strip_suffix('\n') { None => l, Some(m) => m.strip_suffix('\r').unwrap_or(m) }).collect()
}
fn words(p: &Path) -> Result<String, Option<String>> {
    String::from_utf8(std::fs::read(p).map_err(|_| None)?).map_err(|_| None)
}
fn wild(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|i| wild(&p[1..], &s[i..])),
        Some('?') => !s.is_empty() && wild(&p[1..], &s[1..]),
        Some('[') => {
            let e = p.iter().position(|c| *c == ']').unwrap();
            !s.is_empty() && p[1..e].contains(&s[0]) && wild(&p[e + 1..], &s[1..])
        }
        Some(c) => s.first() == Some(c) && wild(&p[1..], &s[1..]),
    }
}
fn text(s: impl ToString) -> X {
    X::String(s.to_string())
}
fn tree(p: &Path, d: Option<i128>) -> X {
    let mut m = BTreeMap::new();
    m.insert(".".to_string(), text(p.to_str().unwrap()));
    m.insert("..".to_string(), text(p.parent().unwrap_or(p).to_str().unwrap()));
    if d.map_or(true, |d| d > 0) {
        if let Ok(es) = std::fs::read_dir(p) {
            for e in es.flatten() {
                if let Some(n) = e.file_name().to_str() {
                    let q = p.join(n);
                    m.insert(n.to_string(), if q.is_dir() { tree(&q, d.map(|d| d - 1)) } else { text(q.to_str().unwrap()) });
                }
            }
        }
    }
    X::Map(m)
}
fn circles(p: &Path, level: usize) -> bool {
    level > 12 || std::fs::read_dir(p).map_or(false, |es| es.flatten().any(|e| e.path().is_dir() && (e.path().is_symlink() || circles(&e.path(), level + 1))))
}
fn want(name: &str, n: usize, cwd: &Path, globs: Option<&Vec<String>>, r: &mut Ref) -> W {
    match name {
        "head" | "tail" => {
            if n != 2 {
                return Err(None);
            }
            let p = cwd.join(r.arg(0)?.to_string());
            let k = match r.arg(1)? {
                X::Integer(k) => k,
                _ => return Err(None),
            };
            let t = words(&p)?;
            let l = lines(&t);
            let k = k.clamp(0, l.len() as i64) as usize;
            let l = if name == "head" { &l[..k] } else { &l[l.len() - k..] };
            Ok(text(l.iter().map(|l| format!("{}\n", l)).collect::<String>()))
        }
        "tree" => {
            if n != 1 && n != 2 {
                return Err(None);
            }
            let at = |v: X| match v {
                X::String(p) | X::Symbol(p) => cwd.join(p),
                _ => cwd.to_path_buf(),
            };
            match r.arg(0)? {
                X::Integer(k) => {
                    let v = if n == 2 { r.arg(1)? } else { X::None };
                    Ok(tree(&at(v), Some(k as i128)))
                }
                v => Ok(tree(&at(v), None)),
            }
        }
        _ => {
            if n != 1 {
                return Err(None);
            }
            let v = r.arg(0)?.to_string();
            let p = cwd.join(&v);
            match name {
                "canon" => p.canonicalize().ok().and_then(|c| c.to_str().map(text)).ok_or(None),
                "exists?" => Ok(X::Boolean(p.metadata().is_ok())),
                "is-dir?" => Ok(X::Boolean(p.metadata().map_or(false, |m| m.is_dir()))),
                "is-file?" => Ok(X::Boolean(p.metadata().map_or(false, |m| m.is_file()))),
                "read" => match std::fs::read(&p) {
                    Err(_) => Err(None),
                    Ok(b) => Ok(match String::from_utf8(b) { Ok(t) => X::String(t), Err(e) => X::Bytes(e.into_bytes()) }),
                },
                "ls" => match p.metadata() {
                    Ok(m) if m.is_dir() => {
                        let mut l = vec![];
                        for e in std::fs::read_dir(&p).map_err(|_| None)? {
                            let e = e.map_err(|_| None)?;
                            l.push(match e.file_name().to_str() { Some(n) => text(Path::new(&v).join(n).to_str().unwrap()), None => text(e.file_name().to_string_lossy()) });
                        }
                        Ok(sorted(X::List(l)))
                    }
                    Ok(m) if m.is_file() => Ok(X::List(vec![text(p.display())])),
                    _ => Err(None),
                },
                "glob" => globs.map(|l| X::List(l.iter().map(text).collect())).ok_or(None),
                _ => unreachable!(),
            }
        }
    }
}
fn sorted(x: X) -> X {
    match x {
        X::List(mut l) => {
            l.sort_by_key(|x| x.to_string());
            X::List(l)
        }
        x => x,
    }
}
fn g01(seed: u64, ix: u64) -> Res {
    let scratch = std::env::var("VX_SCRATCH").expect("VX_SCRATCH");
    let top = PathBuf::from(&scratch).canonicalize().unwrap().join(format!("case-{}", ix));
    let clear = || {
        // directories that cannot be read cannot be removed with what is in them
        fn open(p: &Path) {
            let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o700));
            for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
                if e.file_type().map_or(false, |t| t.is_dir()) {
                    open(&e.path());
                }
            }
        }
        if top.is_dir() {
            open(&top);
        }
        let _ = std::fs::remove_dir_all(&top);
    };
    clear();
    std::fs::create_dir_all(&top).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(seed, ix, &top)));
    clear();
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}
fn one(seed: u64, ix: u64, top: &Path) -> Res {
    let mut r = Rng::new(seed, ix);
    let cwd = top.join(if r.one_in(2) { "here" } else { "in here" });
    std::fs::create_dir_all(&cwd).unwrap();
    let mut made = vec![];
    let odd = r.one_in(4);
    grow(&mut r, &cwd, &cwd, 2, &mut made, odd);
    let mut env = lib();
    env.set_cwd(cwd.to_str().unwrap());
    let fs = match env.get("fs") {
        Some(X::Map(m)) => m,
        _ => return fail("fs", "a module", "none"),
    };
    for _ in 0..8 {
        let name = *r.pick(&["head", "tail", "head", "tail", "canon", "ls", "ls", "exists?", "is-dir?", "is-file?", "read", "glob", "tree", "tree"]);
        let s = spell(&mut r, &cwd, &made);
        let number = |r: &mut Rng| match r.below(8) {
            0 => X::Integer(i64::MAX),
            1 => X::Integer(i64::MIN),
            2 => r.pick(&[X::None, X::Float(1.0), X::Boolean(true), X::String("2".into())]).clone(),
            _ => X::Integer(r.below(8) as i64 - 1),
        };
        let mut globs = None;
        let mut vals = match name {
            "head" | "tail" => vec![as_path(&mut r, s), number(&mut r)],
            "tree" => {
                let round = circles(top, 0);
                let k = match r.below(6) {
                    0 => i64::MIN,
                    1 => -1,
                    2 if !round => i64::MAX,
                    _ => r.below(4) as i64,
                };
                match r.below(4) {
                    0 if !round => vec![as_path(&mut r, s)],
                    1 if !round => vec![r.pick(&[X::None, X::Boolean(true), X::Float(0.5)]).clone()],
                    2 => vec![X::Integer(k)],
                    3 if r.one_in(3) => vec![X::Integer(-(r.below(3) as i64)), X::String(r.pick(&["/", "//", "/.."]).to_string())],
                    _ => vec![X::Integer(k), as_path(&mut r, s)],
                }
            }
            "glob" => {
                let pat = *r.pick(&["*", "a*", "?", "[ab5]", "*.txt", "* *", "*é*", "[", "a[b", "***", "zz", "??*"]);
                let here = if r.one_in(3) && std::env::current_dir().ok().as_deref() == top.parent() { cwd.strip_prefix(top.parent().unwrap()).unwrap().to_path_buf() } else { cwd.clone() };
                if odd {
                    continue;
                }
                if !matches!(pat, "[" | "a[b" | "***") {
                    let p: Vec<char> = pat.chars().collect();
                    let mut l: Vec<String> = std::fs::read_dir(&cwd).unwrap().flatten().map(|e| e.file_name().into_string().unwrap()).filter(|n| wild(&p, &n.chars().collect::<Vec<_>>())).collect();
                    // a pattern without wildcards only matches what exists
                    l.sort();
                    if here != cwd {
                        l = l.iter().map(|n| here.join(n).to_str().unwrap().to_string()).collect();
                    }
                    globs = Some(l);
                }
                vec![X::String(format!("{}/{}", here.to_str().unwrap(), pat))]
            }
            _ => vec![as_path(&mut r, s)],
        };
        if r.one_in(20) {
            if r.one_in(2) { vals.pop(); } else { vals.push(X::Integer(1)); vals.push(X::None); }
        }
        let mut table: Vec<Result<X, String>> = vals.into_iter().map(Ok).collect();
        if r.one_in(15) && !table.is_empty() {
            let i = r.below(table.len());
            table[i] = Err(format!("operand {} failed", i));
        }
        let n = table.len();
        let mut rf = Ref { table, trace: vec![], mode: Mode::default() };
        arm(&rf);
        let what = format!("fs@{} on operands {:?} in {:?}, where there are {:?}", name, rf.table, cwd, made);
        note_file(&what);
        let got = X::Apply(Box::new(fs[name].clone()), (0..n).map(op).collect()).eval(&mut env);
        let seen = traced();
        let want = want(name, n, &cwd, globs.as_ref(), &mut rf);
        let got = if name == "ls" || name == "glob" { got.map(sorted) } else { got };
        let want = if name == "glob" { want.map(sorted) } else { want };
        let ok = match (&got, &want) {
            (Ok(a), Ok(b)) => same(a, b),
            (Err(Error::CustomError(a)), Err(Some(b))) => a == b,
            (Err(_), Err(None)) => true,
            _ => false,
        };
        if !ok {
            return fail(what, format!("{:?}", want), format!("{:?}", got.map_err(|e| format!("{:?}", e))));
        }
        if seen != rf.trace {
            return fail(what, format!("evaluations {:?}", rf.trace), format!("evaluations {:?}", seen));
        }
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "G01", fixed: || 0, case: g01, what: "eight calls of fs@head tail canon ls exists? is-dir? is-file? read glob tree on random trees with links, unreadable files, names that are not Unicode, texts with all kinds of line ends, negative and huge counts, failing operands", threads: 0 }]
}
