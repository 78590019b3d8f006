//! What is written to the standard output: printing, logging, and the console's sequences.
use super::p_lib::*;
use super::util::*;
use dune::{Environment, Error, Expression as X};
use std::cell::RefCell;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::AsRawFd;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn posix_openpt(flags: i32) -> i32;
    fn grantpt(fd: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn ptsname(fd: i32) -> *const std::os::raw::c_char;
    fn ioctl(fd: i32, what: u64, ...) -> i32;
}
/// the answer while the standard output is a terminal of that size, if there are terminals
fn on_terminal<T>(columns: u16, rows: u16, f: impl FnOnce() -> T) -> Option<T> {
    std::io::stdout().flush().ok();
    unsafe {
        let m = posix_openpt(0o2 | 0o400);
        if m < 0 { return None; }
        let name = if grantpt(m) == 0 && unlockpt(m) == 0 { ptsname(m) } else { std::ptr::null() };
        if name.is_null() { close(m); return None; }
        let path = std::ffi::CStr::from_ptr(name).to_string_lossy().to_string();
        let s = std::os::unix::fs::OpenOptionsExt::custom_flags(std::fs::File::options().read(true).write(true), 0o400).open(path);
        let r = match s {
            Ok(s) => {
                let size = [rows, columns, 0u16, 0u16];
                if ioctl(s.as_raw_fd(), 0x5414, size.as_ptr()) != 0 { close(m); return None; }
                let saved = dup(1);
                dup2(s.as_raw_fd(), 1);
                let r = f();
                dup2(saved, 1);
                close(saved);
                Some(r)
            }
            Err(_) => None,
        };
        close(m);
        r
    }
}
/// the standard output, taken away for a while
struct Taken {
    file: std::fs::File,
    saved: i32,
}
impl Taken {
    fn new() -> Taken {
        let file = FILE.with(|f| {
            let mut f = f.borrow_mut();
            if f.is_none() {
                let path = std::path::Path::new(&std::env::var("VX_SCRATCH").unwrap_or_else(|_| "/tmp".into())).join(format!("out{}", std::process::id()));
                *f = Some(std::fs::File::options().read(true).write(true).create(true).truncate(true).open(&path).expect("scratch"));
                std::fs::remove_file(&path).ok();
            }
            f.as_ref().unwrap().try_clone().unwrap()
        });
        file.set_len(0).expect("scratch");
        (&file).seek(SeekFrom::Start(0)).expect("scratch");
        std::io::stdout().flush().ok();
        let saved = unsafe { dup(1) };
        unsafe { dup2(file.as_raw_fd(), 1) };
        Taken { file, saved }
    }
    fn text(&mut self) -> String {
        std::io::stdout().flush().ok();
        let mut b = vec![];
        self.file.seek(SeekFrom::Start(0)).ok();
        self.file.read_to_end(&mut b).ok();
        String::from_utf8_lossy(&b).to_string()
    }
}
impl Drop for Taken {
    fn drop(&mut self) {
        std::io::stdout().flush().ok();
        unsafe { dup2(self.saved, 1) };
        unsafe { close(self.saved) };
    }
}
/// an operand: what evaluating it prints, the level it sets, and its value
#[derive(Clone, Debug)]
struct Opd {
    says: String,
    level: Option<i64>,
    value: Result<X, String>,
}
thread_local! {
    static FILE: RefCell<Option<std::fs::File>> = RefCell::new(None);
    static OPDS: RefCell<Vec<Opd>> = RefCell::new(vec![]);
}
fn opd(args: Vec<X>, env: &mut Environment) -> Result<X, Error> {
    let o = match args.first() { Some(X::Integer(k)) => OPDS.with(|o| o.borrow()[*k as usize].clone()), _ => return Err(Error::CustomError("opd".into())) };
    print!("{}", o.says);
    if let Some(n) = o.level {
        if let Some(X::Map(m)) = env.get("log") { X::Apply(Box::new(m["set-level"].clone()), vec![X::Integer(n)]).eval(env)?; }
    }
    o.value.map_err(Error::CustomError)
}
fn text(r: &mut Rng) -> String {
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 => r.below(30), _ => r.below(8) };
    let nl = r.below(4);
    (0..n).map(|_| if nl > 0 && r.below(4) < nl { '\n' } else { *r.pick(&['a', 'b', ' ', '\r', 'é', '\x1b', '{', '}', '%', '\t', '0']) }).collect()
}
fn val(r: &mut Rng) -> X {
    match r.below(12) {
        0 => X::Integer(r.next() as i64),
        1 => X::Boolean(r.one_in(2)),
        2 => X::None,
        3 => X::Float(0.5),
        4 => X::Symbol(text(r)),
        5 => X::Bytes(vec![1, 2]),
        _ => X::String(text(r)),
    }
}
fn opds(r: &mut Rng, n: usize) -> Vec<Opd> {
    let mut v: Vec<Opd> = (0..n).map(|k| Opd { says: if r.one_in(2) { format!("<{}>", k) } else { String::new() }, level: None, value: Ok(val(r)) }).collect();
    if n > 0 && r.one_in(5) { let k = r.below(n); v[k].value = Err(format!("operand {} failed", k)); }
    v
}
/// the result (None: any error) and all that was printed
type Want = (Result<X, Option<String>>, String);
fn run(env: &mut Environment, what: &str, callee: &X, ops: &[Opd], want: impl FnOnce() -> Want) -> Res {
    let what = format!("{} on operands {:?}", what, ops);
    note(&what);
    OPDS.with(|o| *o.borrow_mut() = ops.to_vec());
    let x = X::Apply(Box::new(callee.clone()), (0..ops.len()).map(|k| X::Apply(Box::new(X::builtin("opd", opd, "")), vec![X::Integer(k as i64)])).collect());
    let (got, out) = {
        let mut t = Taken::new();
        let got = x.eval(env);
        let out = t.text();
        (got, out)
    };
    let (want, text) = want();
    let ok = match (&got, &want) {
        (Ok(a), Ok(b)) => super::p_arith::same(a, b),
        (Err(Error::CustomError(a)), Err(Some(b))) => a == b,
        (Err(_), Err(None)) => true,
        _ => false,
    };
    if !ok { return fail(what, format!("{:?}", want), format!("{:?}", got.map_err(|e| format!("{:?}", e)))); }
    if out != text { return fail(what, format!("printed {:?}", text), format!("printed {:?}", out)); }
    Ok(())
}
/// the operands in turn: what they print, and `f` of their values
fn turn(ops: &[Opd], mut f: impl FnMut(usize, &X) -> String) -> (Result<X, Option<String>>, String) {
    let mut out = String::new();
    for (k, o) in ops.iter().enumerate() {
        out += &o.says;
        match &o.value { Err(e) => return (Err(Some(e.clone())), out), Ok(v) => out += &f(k, v) }
    }
    (Ok(X::None), out)
}
/// all operands, then one text or an error
fn all(ops: &[Opd], n: usize, f: impl FnOnce(&[X]) -> Option<String>) -> Want {
    if ops.len() != n { return (Err(None), String::new()); }
    let mut vs = vec![];
    let (r, out) = turn(ops, |_, v| { vs.push(v.clone()); String::new() });
    match r { Err(_) => (r, out), Ok(_) => match f(&vs) { Some(s) => (Ok(X::None), out + &s), None => (Err(None), out) } }
}
fn message(ops: &[Opd], prefix: &str) -> Want {
    let mut fresh = true;
    turn(ops, |k, v| {
        let x = v.to_string();
        let mut o = String::new();
        if x.contains('\n') {
            let mut rest = &x[..];
            while let Some(i) = rest.find('\n') { o += &format!("{}{}\n", prefix, &rest[..i]); rest = &rest[i + 1..]; }
            if !rest.is_empty() { o += &format!("{}{}", prefix, rest); }
        } else {
            if fresh { o += prefix; }
            o += &x;
            o.push(if k + 1 == ops.len() { '\n' } else { ' ' });
        }
        fresh = x.ends_with('\n');
        o
    })
}
const LEVELS: &[(&str, i64, u32)] = &[("error", 1, 91), ("warn", 2, 93), ("info", 3, 92), ("debug", 4, 94), ("trace", 5, 95)];
fn o02(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let fresh = lib();
    let e = &mut fresh.clone();
    if ix % 3 == 0 {
        let name = ["print", "println", "echo", "debug", "log echo"][r.below(5)];
        let callee = if name == "log echo" { named(&fresh, "log", "echo")? } else { named(&fresh, "", name)? };
        let n = r.below(5);
        let ops = opds(r, n);
        return run(e, name, &callee, &ops, || turn(&ops, |k, v| {
            let s = if name == "debug" { format!("{:?}", v) } else { v.to_string() };
            let last = k + 1 == ops.len();
            s + if !last { " " } else if name == "print" { "" } else { "\n" }
        }));
    }
    // a history of levels and messages
    let mut level = 0;
    let mut past = String::new();
    let just = |v: X| vec![Opd { says: String::new(), level: None, value: Ok(v) }];
    let log = |n: &str| named(&fresh, "log", n);
    run(e, "log disable at the start", &log("disable")?, &[], || (Ok(X::None), String::new()))?;
    for _ in 0..1 + r.below(4) {
        match r.below(8) {
            0 | 1 | 2 => {
                let v = match r.below(8) { 0 => val(r), 1 => X::Integer(r.next() as i64), _ => X::Integer(r.below(9) as i64 - 2) };
                let mut ops = just(v);
                if r.one_in(12) { let n = r.below(3); ops = opds(r, n); }
                run(e, &format!("{}log@set-level", past), &log("set-level")?, &ops, || {
                    if ops.len() == 1 { if let Ok(X::Integer(n)) = ops[0].value { level = n; } }
                    all(&ops, 1, |v| match v[0] { X::Integer(_) => Some(String::new()), _ => None })
                })?;
                past += &format!("log@set-level {:?}; ", ops);
            }
            3 => { let ops = if r.one_in(3) { vec![] } else { just(X::None) }; run(e, &format!("{}log@disable", past), &log("disable")?, &ops, || (Ok(X::None), String::new()))?; level = 0; past += "log@disable; "; }
            4 => {
                let n = if r.one_in(4) { r.next() as i64 } else { r.below(9) as i64 - 2 };
                run(e, &format!("{}log@enabled?", past), &log("enabled?")?, &just(X::Integer(n)), || (Ok(X::Boolean(n <= 0 || level >= n)), String::new()))?;
            }
            _ => {
                let (name, need, code) = *r.pick(LEVELS);
                if r.one_in(2) { level = need - r.below(2) as i64 + r.below(2) as i64; run(e, "log@set-level", &log("set-level")?, &just(X::Integer(level)), || (Ok(X::None), String::new()))?; past += &format!("log@set-level {}; ", level); }
                let n = r.below(4);
                let mut ops = opds(r, n);
                if n > 0 && r.one_in(6) { ops[0].level = Some(r.below(7) as i64); }
                let on = level >= need;
                run(e, &format!("{}log@{}", past, name), &log(name)?, &ops, || if on { message(&ops, &format!("\x1b[{}m[{}]\x1b[m ", code, name.to_uppercase())) } else { (Ok(X::None), String::new()) })?;
                if let (true, Some(Some(n))) = (on, ops.first().map(|o| o.level)) { level = n; }
                past += &format!("log@{} {:?}; ", name, ops);
            }
        }
        run(e, &format!("{}log@get-level", past), &log("get-level")?, &if ix % 2 == 0 { vec![] } else { just(X::None) }, || (Ok(X::Integer(level)), String::new()))?;
    }
    Ok(())
}
const SENDS: &[(&str, &str, &str)] = &[
    ("cursor", "save-position", "\x1b[s"), ("cursor", "restore-position", "\x1b[u"), ("cursor", "hide", "\x1b[?25l"), ("cursor", "show", "\x1b[?25h"),
    ("mode", "alternate", "\x1b[?1049h"), ("mode", "normal", "\x1b[?1049l"),
];
fn k01(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let fresh = lib();
    let e = &mut fresh.clone();
    let con = |m: &str, n: &str| match named(&fresh, "console", if m.is_empty() { n } else { m })? {
        X::Map(k) if !m.is_empty() => match k.get(n) { Some(x) => Ok(x.clone()), None => fail(format!("console@{}@{}", m, n), "a function of this name", "nothing") },
        x => Ok(x),
    };
    let num = |r: &mut Rng| match r.below(8) { 0 => i64::MAX - r.below(3) as i64, 1 => r.next() as i64, 2 => -(r.below(9) as i64), _ => r.below(200) as i64 };
    let name = *r.pick(&["move-to", "move-up", "move-down", "move-left", "move-right", "write", "write", "write", "title", "clear", "plain", "plain", "size"]);
    let arity = match name { "move-to" => 2, "write" => 3, _ => 1 };
    let n = if r.one_in(8) { r.below(5) } else { arity };
    let mut ops = opds(r, n);
    for k in 0..n.min(2) { if !r.one_in(9) && ops[k].value.is_ok() && name != "title" { ops[k].value = Ok(X::Integer(num(r))); } }
    let int = |x: &X| match x { X::Integer(n) => Some(*n), _ => None };
    match name {
        "size" => {
            // in a terminal of some size, or with no terminal at all; operands make no difference
            let (big, tall) = (if r.one_in(4) { 65535 } else { 300 }, if r.one_in(4) { 65535 } else { 100 });
            let (c, l) = (1 + r.below(big) as u16, 1 + r.below(tall) as u16);
            for (n, want) in [("width", c), ("height", l)] {
                let f = con("", n)?;
                run(e, n, &f, &ops, || (Ok(X::None), String::new()))?;
                let mut there = e.clone();
                if let Some(got) = on_terminal(c, l, || X::Apply(Box::new(f), vec![X::None]).eval(&mut there)) {
                    if !matches!(got, Ok(X::Integer(k)) if k == want as i64) {
                        return fail(format!("console@{} on a terminal of {} columns and {} rows", n, c, l), want, format!("{:?}", got));
                    }
                }
            }
            Ok(())
        }
        "plain" => {
            let (m, n, s) = *r.pick(SENDS);
            run(e, n, &con(m, n)?, &ops, || (Ok(X::None), s.to_string()))
        }
        "clear" => run(e, name, &con("", name)?, &ops, || if ops.len() == 1 { (Ok(X::None), "\x1b[2J\x1b[H".into()) } else { (Err(None), String::new()) }),
        "title" => run(e, name, &con("", name)?, &ops, || all(&ops, 1, |v| Some(format!("\x1b]2;{}\x1b[0m", v[0])))),
        "write" => run(e, name, &con("", name)?, &ops, || all(&ops, 3, |v| {
            let (x, y) = (int(&v[0])?, int(&v[1])?);
            let mut t = v[2].to_string();
            let mut o = String::new();
            if t.ends_with('\n') { t.pop(); } else if t.is_empty() { return Some(o); }
            for (k, l) in t.split('\n').enumerate() {
                let l = l.strip_suffix('\r').filter(|_| k < t.matches('\n').count() || v[2].to_string().ends_with('\n')).unwrap_or(l);
                let y = y.saturating_add(k as i64);
                o += &format!("\x1b[s\x1b[{y};{x}H\x1b[{y};{x}f{l}\x1b[u");
            }
            Some(o)
        })),
        "move-to" => run(e, name, &con("cursor", name)?, &ops, || all(&ops, 2, |v| Some(format!("\x1b[{};{}f", int(&v[1])?, int(&v[0])?)))),
        _ => run(e, name, &con("cursor", name)?, &ops, || all(&ops, 1, |v| Some(format!("\x1b[{}{}", int(&v[0])?, match name { "move-up" => "A", "move-down" => "B", "move-left" => "D", _ => "C" })))),
    }
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "O02", fixed: none, case: o02, what: "what printing writes, and histories of levels and messages, beside a reference", threads: 1 },
        Prop { id: "K01", fixed: none, case: k01, what: "what the console functions write, beside a reference", threads: 1 },
    ]
}
