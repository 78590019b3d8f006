//! The file-system functions on real directories, inside the scratch directory
//! only: what was there before, what is there afterwards.
use super::util::*;
use dune::{Environment, Expression as X};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};

thread_local! {
    static LIB: RefCell<Option<Environment>> = RefCell::new(None);
}
fn lib() -> Environment {
    LIB.with(|l| {
        let mut l = l.borrow_mut();
        if l.is_none() {
            let mut env = Environment::new();
            crate::binary::init(&mut env);
            *l = Some(env);
        }
        l.as_ref().unwrap().clone()
    })
}
#[derive(Clone, Debug, PartialEq)]
enum N {
    File(Vec<u8>),
    Secret,
    Dir,
    Link(PathBuf),
}
type Snap = BTreeMap<PathBuf, N>;
fn walk(p: &Path, at: &Path, s: &mut Snap) {
    let mut v: Vec<_> = match std::fs::read_dir(p) {
        Ok(d) => d.flatten().collect(),
        Err(_) => return,
    };
    v.sort_by_key(|e| e.file_name());
    for e in v {
        let q = e.path();
        let k = at.join(e.file_name());
        let m = match q.symlink_metadata() {
            Ok(m) => m,
            Err(_) => continue,
        };
        if m.file_type().is_symlink() {
            s.insert(k, N::Link(std::fs::read_link(&q).unwrap_or_default()));
        } else if m.is_dir() {
            s.insert(k.clone(), N::Dir);
            walk(&q, &k, s);
        } else {
            s.insert(k, std::fs::read(&q).map(N::File).unwrap_or(N::Secret));
        }
    }
}
fn snap(top: &Path) -> Snap {
    let mut s = Snap::new();
    walk(top, Path::new(""), &mut s);
    s
}
const NAMES: &[&str] = &["a", "b", "c", "d", "a b", "é", "a.txt", "-x"];
fn grow(r: &mut Rng, top: &Path, at: &Path, depth: usize, made: &mut Vec<PathBuf>) {
    for n in NAMES {
        if !r.one_in(2) {
            continue;
        }
        let p = at.join(n);
        let rel = p.strip_prefix(top).unwrap().to_path_buf();
        match r.below(10) {
            0..=4 => {
                let c: Vec<u8> = (0..r.below(6)).map(|_| r.below(256) as u8).collect();
                std::fs::write(&p, c).unwrap();
                if r.one_in(20) {
                    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0)).unwrap();
                }
            }
            5..=7 => {
                std::fs::create_dir(&p).unwrap();
                if depth > 0 {
                    grow(r, top, &p, depth - 1, made);
                }
            }
            _ => {
                let t = match r.below(4) {
                    0 => PathBuf::from("nowhere"),
                    1 if !made.is_empty() => top.join(r.pick(&made[..])),
                    2 => PathBuf::from(r.pick(NAMES)),
                    _ => PathBuf::from("..").join(r.pick(NAMES)),
                };
                symlink(t, &p).unwrap();
            }
        }
        made.push(rel);
    }
}
/// a way to write the path, relative to the working directory or absolute
fn spell(r: &mut Rng, cwd: &Path, p: &Path) -> String {
    let s = p.to_str().unwrap().to_string();
    match r.below(6) {
        0 => cwd.join(p).to_str().unwrap().to_string(),
        1 => format!("./{}", s),
        2 => s.replace('/', "//"),
        _ => s,
    }
}
fn path(r: &mut Rng, made: &[PathBuf], depth: usize) -> PathBuf {
    match r.below(5) {
        0 | 1 if !made.is_empty() => r.pick(made).clone(),
        2 if !made.is_empty() => r.pick(made).join(r.pick(&["a", "b", "new", "new2"])),
        3 => PathBuf::from(r.pick(&["new", "new/er", "new2", "z"])),
        _ => PathBuf::from(r.pick(NAMES)),
    }
}
/// the same when links are followed; None: cannot be read through
fn deep(p: &Path, level: usize) -> Option<Snap> {
    let mut s = Snap::new();
    fn go(p: &Path, at: &Path, level: usize, s: &mut Snap) -> Option<()> {
        if level > 12 {
            return None;
        }
        let m = p.metadata().ok()?;
        if m.is_dir() {
            s.insert(at.to_path_buf(), N::Dir);
            for e in std::fs::read_dir(p).ok()? {
                let e = e.ok()?;
                go(&e.path(), &at.join(e.file_name()), level + 1, s)?;
            }
        } else {
            s.insert(at.to_path_buf(), N::File(std::fs::read(p).ok()?));
        }
        Some(())
    }
    go(p, Path::new("."), level, &mut s)?;
    Some(s)
}
fn same_kept(before: &Snap, after: &Snap, except: impl Fn(&Path) -> bool) -> Option<String> {
    for (k, v) in before {
        if !except(k) && after.get(k) != Some(v) {
            return Some(format!("{:?} was {:?}, is {:?}", k, v, after.get(k)));
        }
    }
    None
}
/// directory links can make a copy run in circles
fn dir_links(s: &Snap, top: &Path) -> bool {
    s.iter().any(|(k, v)| matches!(v, N::Link(_)) && top.join(k).is_dir())
}
fn s01(seed: u64, ix: u64) -> Res {
    let scratch = std::env::var("VX_SCRATCH").expect("VX_SCRATCH");
    let top = PathBuf::from(&scratch).join(format!("case-{}", ix));
    let _ = std::fs::remove_dir_all(&top);
    std::fs::create_dir_all(&top).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(seed, ix, &top)));
    let _ = std::fs::remove_dir_all(&top);
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}
fn one(seed: u64, ix: u64, top: &Path) -> Res {
    let mut r = Rng::new(seed, ix);
    let cwd = top.join(if r.one_in(2) { "here" } else { "in here" });
    std::fs::create_dir_all(&cwd).unwrap();
    let mut made = vec![];
    grow(&mut r, &cwd, &cwd, 2, &mut made);
    let mut env = lib();
    env.set_cwd(cwd.to_str().unwrap());
    let fs = match env.get("fs") {
        Some(X::Map(m)) => m,
        _ => return fail("fs", "a module", "none"),
    };
    for _ in 0..r.range(1, 4) {
        let name = *r.pick(&["cp", "mv", "rm", "cp", "mv", "mkdir", "rmdir", "write", "append"]);
        let two = matches!(name, "cp" | "mv");
        let s = path(&mut r, &made, 2);
        let d = if two && r.one_in(12) { s.clone() } else { path(&mut r, &made, 2) };
        let text: Vec<u8> = (0..r.below(5)).map(|_| r.below(256) as u8).collect();
        let content = match r.below(4) {
            0 => X::String("text\n".into()),
            1 => X::Integer(-12),
            2 => X::Symbol("none".into()),
            _ => X::Bytes(text.clone()),
        };
        let bytes = match &content {
            X::Bytes(b) => b.clone(),
            x => x.to_string().into_bytes(),
        };
        let mut args = vec![X::String(spell(&mut r, &cwd, &s))];
        if two {
            args.push(X::String(spell(&mut r, &cwd, &d)));
        } else if matches!(name, "write" | "append") {
            args.push(content);
        }
        let bad = r.one_in(25);
        if bad {
            if r.one_in(2) {
                args.pop();
            } else {
                args.push(X::String("new".into()));
            }
        }
        let (src, dst) = (cwd.join(&s), cwd.join(&d));
        let before = snap(top);
        let what = format!("fs@{} {:?} in {:?} with {:?}", name, args, cwd, before);
        note_file(&what);
        let shown = what.clone();
        let exp = |want: &str, got: String| -> Res { fail(&shown, want, got) };
        let src_there = src.symlink_metadata().is_ok();
        let dst_there = dst.symlink_metadata().is_ok();
        if two && name == "cp" && src.is_dir() && (dir_links(&before, top) || dst.starts_with(&src)) {
            // would go round in circles
            if !dst_there {
                continue;
            }
        }
        let real = real_parent(&src).unwrap_or(src.clone());
        let src_deep = deep(&src, 0);
        let dst_home = dst.parent().map_or(false, |p| p.is_dir());
        let real_src = src.canonicalize().ok();
        let path_dir = src.is_dir();
        let old = std::fs::read(&src).ok();
        let could_write = std::fs::OpenOptions::new().append(true).open(&src).is_ok();
        let got = X::Apply(Box::new(fs[name].clone()), args).eval(&mut env);
        let after = snap(top);
        let out = match &got {
            Ok(v) => format!("{:?}; {:?}", v, after),
            Err(e) => format!("error {}; {:?}", e, after),
        };
        let in_src = |k: &Path| top.join(k).starts_with(&real);
        if bad {
            if got.is_ok() || after != before {
                return exp("an error and no change", out);
            }
            continue;
        }
        match name {
            "cp" | "mv" => {
                if src == dst {
                    if got.is_err() || after != before {
                        return exp("no error and no change: source and destination are the same", out);
                    }
                } else if dst_there {
                    if got.is_ok() || after != before {
                        return exp("an error and no change: the destination exists", out);
                    }
                } else if name == "cp" {
                    if let Some(x) = same_kept(&before, &after, |_| false) {
                        return exp("everything that was there before stays as it was", format!("{}; {}", x, out));
                    }
                    if !src_there && got.is_ok() {
                        return exp("an error: there is no source", out);
                    }
                    if got.is_ok() && (src_deep.is_none() || deep(&dst, 0) != src_deep) {
                        return exp("a complete copy, or an error", out);
                    }
                    if src_deep.is_some() && (dst_home) && got.is_err() {
                        return exp("a copy", out);
                    }
                } else {
                    if got.is_err() && after != before {
                        return exp("no change when there was an error", out);
                    }
                    if !src_there && got.is_ok() {
                        return exp("an error: there is no source", out);
                    }
                    if got.is_ok() {
                        if let Some(x) = same_kept(&before, &after, |k| in_src(k)) {
                            return exp("everything else stays as it was", format!("{}; {}", x, out));
                        }
                        for (k, v) in &before {
                            if in_src(k) {
                                let n = dst.join(top.join(k).strip_prefix(&real).unwrap());
                                let n: PathBuf = n.components().collect();
                                let n = n.strip_prefix(top).unwrap().to_path_buf();
                                if after.contains_key(k) || (after.get(&n) != Some(v) && dst_home && dst.parent().unwrap().canonicalize().ok() == Some(dst.parent().unwrap().to_path_buf())) {
                                    return exp("the source is at the destination now", out);
                                }
                            }
                        }
                    } else if src_there && dst_home && !dst.parent().unwrap().canonicalize().map_or(true, |p| p.starts_with(real_src.clone().unwrap_or_default())) {
                        return exp("the source is moved", out);
                    }
                }
            }
            "rm" => {
                if got.is_ok() != src_there {
                    // removing can only fail when there is nothing
                    return exp(if src_there { "it is removed" } else { "an error: there is nothing" }, out);
                }
                if !src_there && after != before {
                    return exp("no change", out);
                }
                let kept = real.clone();
                if let Some(x) = same_kept(&before, &after, |k| top.join(k).starts_with(&kept)) {
                    return exp("everything else stays as it was", format!("{}; {}", x, out));
                }
                if src_there && src.symlink_metadata().is_ok() {
                    return exp("it is gone", out);
                }
            }
            "mkdir" => {
                if let Some(x) = same_kept(&before, &after, |_| false) {
                    return exp("everything that was there before stays as it was", format!("{}; {}", x, out));
                }
                if got.is_ok() != src.is_dir() {
                    return exp("a directory, or an error", out);
                }
            }
            "rmdir" => {
                let kept = real.clone();
                if let Some(x) = same_kept(&before, &after, |k| got.is_ok() && top.join(k) == kept) {
                    return exp("everything else stays as it was", format!("{}; {}", x, out));
                }
                if got.is_ok() && (src.symlink_metadata().is_ok() || !path_dir) {
                    return exp("an empty directory is removed, or an error", out);
                }
            }
            _ => {
                let target = real_src.clone();
                if let Some(x) = same_kept(&before, &after, |k| got.is_ok() && Some(top.join(k)) == target) {
                    return exp("every other file stays as it was", format!("{}; {}", x, out));
                }
                if got.is_ok() {
                    let mut want = if name == "append" { old.clone().unwrap_or_default() } else { vec![] };
                    want.extend(&bytes);
                    if std::fs::read(&src).ok() != Some(want) && (name == "write" || old.is_some()) {
                        return exp("the file has the contents", out);
                    }
                }
                if name == "append" && got.is_ok() != could_write {
                    return exp(if could_write { "it is appended to" } else { "an error" }, out);
                }
                if name == "write" && path_dir && got.is_ok() {
                    return exp("an error: it is a directory", out);
                }
                if name == "write" && could_write && got.is_err() {
                    return exp("it is written", out);
                }
            }
        }
    }
    Ok(())
}
/// where the entry named by the path really is
fn real_parent(p: &Path) -> Option<PathBuf> {
    Some(p.parent()?.canonicalize().ok()?.join(p.file_name()?))
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "S01", fixed: || 0, case: s01, what: "up to four file operations (cp, mv, rm, mkdir, rmdir, write, append) on random trees with links, against what was there before", threads: 0 }]
}
