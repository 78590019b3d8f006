//! H02: whole sessions of the real program, with lines, files and texts given to it in every way, against
//! what the property says is printed, reported and put in the history; and hints.
use super::p_lib::lib;
use super::util::{fail, Prop, Res, Rng};
use dune::{Error, Expression as X, SyntaxError};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

pub fn child() {
    if let Err(e) = crate::vx_orig_main() {
        eprintln!("Error: {:?}", e);
        std::process::exit(1);
    }
}
static N: AtomicU64 = AtomicU64::new(0);
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let d = PathBuf::from(std::env::var("VX_SCRATCH").unwrap_or_else(|_| "/tmp".into())).join(format!("sh{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(d.join("sub/deep")).expect("scratch");
        Dir(d.canonicalize().expect("scratch"))
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}
/// the program's output (both streams, in order) and how it ended
fn run(d: &Dir, args: &[String], input: &str) -> Result<(String, Option<i32>), String> {
    let (mut r, w) = std::io::pipe().map_err(|e| e.to_string())?;
    let mut c = std::process::Command::new("/proc/self/exe");
    c.args(args).env("VX_SHELL", "1").env("HOME", &d.0).env("TERM", "dumb").env("PATH", format!("{}:/usr/bin:/bin", d.0.display())).current_dir(&d.0);
    c.stdin(std::process::Stdio::piped()).stdout(w.try_clone().map_err(|e| e.to_string())?).stderr(w);
    let mut p = c.spawn().map_err(|e| e.to_string())?;
    drop(c);
    let reader = std::thread::spawn(move || {
        let (mut b, mut c) = (vec![], [0u8; 4096]);
        while let Ok(n) = r.read(&mut c) {
            if n == 0 || b.len() > 1 << 18 {
                break;
            }
            b.extend_from_slice(&c[..n]);
        }
        String::from_utf8_lossy(&b).to_string()
    });
    p.stdin.take().unwrap().write_all(input.as_bytes()).ok();
    let t = std::time::Instant::now();
    let code = loop {
        match p.try_wait() {
            Ok(Some(s)) => break s.code(),
            Ok(None) if t.elapsed().as_secs() < 60 => std::thread::sleep(std::time::Duration::from_millis(1)),
            _ => {
                p.kill().ok();
                p.wait().ok();
                return Ok((reader.join().unwrap_or_default(), Some(-1)));
            }
        }
    };
    Ok((reader.join().unwrap_or_default(), code))
}
fn parses(s: &str) -> Result<X, String> {
    match dune::parse_script(s) {
        Ok(x) => Ok(x),
        Err(e) => {
            let e = match e.map(|e| Error::SyntaxError(s.into(), e)) {
                e => format!("{:?}", e),
            };
            Err(e)
        }
    }
}
/// what a text that does not parse is reported as
fn complaint(s: &str) -> String {
    let mut said = String::new();
    match dune::parse_script(s) {
        Ok(_) => {}
        Err(e) => { e.map(|e| { said = Error::SyntaxError(s.into(), e).to_string(); }); }
    }
    said + "\n"
}
/// what evaluating a text in a fresh environment gives, as it is shown
fn shown(s: &str) -> Result<String, String> {
    match dune::parse_script(s) {
        Ok(x) => match x.eval(&mut lib()) { Ok(X::String(t)) => Ok(t), Ok(v) => Ok(v.to_string()), Err(e) => Err(e.to_string()) },
        Err(_) => Err("does not parse".into()),
    }
}
#[derive(Clone, PartialEq)]
enum Ask { Default, Fails, None, Red, Says(u64, bool) }
/// a session as the property tells it
struct Sim {
    out: String,
    cwd: PathBuf,
    vars: Vec<(String, i64)>,
    macros: Vec<(String, bool)>,
    fresh: u64,
    prompt: Ask,
    more: Ask,
    pending: Vec<String>,
    history: Vec<String>,
    saved: Option<Vec<String>>,
    lines: Vec<String>,
}
/// what running a statement does: it is written, its value is shown, or it fails
enum Eff { Nothing, Print(String), Show(String), Fail(String) }
impl Sim {
    fn ask(&mut self) {
        let p = if self.pending.is_empty() { self.prompt.clone() } else { self.more.clone() };
        let d = self.cwd.display().to_string();
        self.out += &match p {
            Ask::Default if self.pending.is_empty() => format!("(dune) {}$ ", d),
            Ask::Default => " ".repeat(7 + d.chars().count()) + "> ",
            Ask::Fails => format!("{}$ ", d),
            Ask::None => "None".into(),
            Ask::Red => d + "$",
            Ask::Says(n, true) => format!("P{} {}\n{}", n, d, d),
            Ask::Says(n, false) => format!("P{}\n{}", n, d),
        };
    }
    fn keep(&mut self, t: String) {
        if !t.is_empty() && !t.starts_with(char::is_whitespace) && self.history.last() != Some(&t) {
            self.history.push(t);
        }
    }
    fn feed(&mut self, line: String) {
        self.ask();
        self.lines.push(line.clone());
        self.pending.push(line);
    }
    /// a line that does not finish what is pending
    fn part(&mut self, line: String) {
        self.feed(line);
        let t = self.pending.join("\n");
        self.keep(t);
    }
    /// the line that finishes it
    fn finish(&mut self, line: String) {
        self.feed(line);
        let t = self.pending.join("\n");
        self.keep(t);
        self.saved = Some(self.history.clone());
        self.pending.clear();
    }
    fn give_up(&mut self) {
        self.feed(String::new());
        self.out += &complaint(&self.pending.join("\n"));
        self.pending.clear();
    }
    fn name(&mut self, k: &str) -> String {
        self.fresh += 1;
        format!("{}{}", k, self.fresh)
    }
    /// a statement, what it does here, and what it changes for later
    fn statement(&mut self, r: &mut Rng, typed: bool) -> (String, Eff, Option<Box<dyn FnOnce(&mut Sim)>>) {
        let n = r.below(2000) as i64 - 1000;
        match r.below(if typed { 24 } else { 8 }) {
            0 => { let v = self.name("v"); (format!("let {} = {}", v, n.abs()), Eff::Nothing, Some(Box::new(move |s: &mut Sim| s.vars.push((v, n.abs()))))) }
            1 => (format!("println {}", n.abs()), Eff::Print(format!("{}\n", n.abs())), None),
            2 => { let t = format!("println \"a  {}\" ( 1 + {} )", r.below(9), n.abs()); let m = t.split('"').nth(1).unwrap().to_string(); (t, Eff::Print(format!("{} {}\n", m, 1 + n.abs())), None) }
            3 if !self.vars.is_empty() => { let (v, k) = r.pick(&self.vars).clone(); (format!("println ( {} + {} )", v, n.abs()), Eff::Print(format!("{}\n", k + n.abs())), None) }
            4 if r.one_in(2) => { let t = format!("( {} // 0 )", n.abs()); let e = shown(&t).unwrap_err(); (t, Eff::Fail(e + "\n"), None) }
            4 => { let t = format!("nosuchprogram{} 1", r.below(5)); let p = t.split(' ').next().unwrap().to_string(); (t, Eff::Fail(format!("program \"{}\" not found\n", p)), None) }
            5 => ("()".to_string(), Eff::Nothing, None),
            6 if !self.vars.is_empty() => { let (v, k) = r.pick(&self.vars).clone(); (format!("( {} * 2 )", v), Eff::Show(format!("{}\n", k * 2)), None) }
            7 => { let t = format!("{}", r.pick(&["( 3 + 4 )", "\"te xt\"", "True", "\"\"", "( 1 == 2 )", "0.5", "\"l1\\nl2\"", "'( 1 + 2 )", "'( println 7 )", "x -> ( x + 1 )", "[ 1 , 2 ]", "[ ]", "{ a = 1 }", "'( nosuchprogram 2 )", "b \"xyz\"", "'( 1 // 0 )"])); match shown(&t) { Ok(v) => (t, Eff::Show(v + "\n"), None), Err(_) => ("5".into(), Eff::Show("5\n".into()), None) } }
            8 if r.one_in(2) => { let q = format!("nosuch{}", r.below(9)); (q.clone(), Eff::Fail(format!("program \"{}\" not found\n", q)), None) }
            8 => match r.below(3) { 0 => ("'println".to_string(), Eff::Nothing, None), 1 => ("hello1".to_string(), Eff::Print("hi \n".into()), None), _ => ("hello1 5".to_string(), Eff::Print("hi 5\n".into()), None) },
            9 | 10 => {
                let m = self.name("m");
                let bad = r.one_in(2);
                (format!("let {} = d ~> ( {} )", m, if bad { "1 // 0" } else { "d + \"!\"" }), Eff::Nothing, Some(Box::new(move |s: &mut Sim| s.macros.push((m, bad)))))
            }
            11 | 12 if !self.macros.is_empty() => {
                let (m, bad) = r.pick(&self.macros).clone();
                (m, if bad { Eff::Fail(shown("( 1 // 0 )").unwrap_err() + "\n") } else { Eff::Print(format!("{}!\n", self.cwd.display())) }, None)
            }
            13 | 14 => {
                let k = r.below(90) as u64;
                let (dir, first) = (r.one_in(2), r.one_in(2));
                let t = format!("let {} = d -> {{ println {}; d }}", if first { "prompt" } else { "incomplete_prompt" }, if dir { format!("( \"P{} \" + d )", k) } else { format!("\"P{}\"", k) });
                (t, Eff::Nothing, Some(Box::new(move |s: &mut Sim| if first { s.prompt = Ask::Says(k, dir) } else { s.more = Ask::Says(k, dir) })))
            }
            15 => {
                let (first, k) = (r.one_in(2), r.below(5));
                let t = format!("let {} = {}", if first { "prompt" } else { "incomplete_prompt" }, ["5", "d -> ( 1 // 0 )", "d -> None", "None", "d -> ( fmt@red ( d + \"$\" ) )"][k]);
                let a = [Ask::Fails, Ask::Fails, Ask::None, Ask::Fails, Ask::Red][k].clone();
                (t, Eff::Nothing, Some(Box::new(move |s: &mut Sim| if first { s.prompt = a } else { s.more = a })))
            }
            16 | 17 => {
                let (t, p) = match r.below(3) { 0 => ("sub", self.cwd.join("sub")), 1 => ("deep", self.cwd.join("deep")), _ => ("..", self.cwd.join("..")) };
                match (p.is_dir() && (t != ".." || self.cwd.ends_with("sub") || self.cwd.ends_with("deep")), p.canonicalize()) {
                    (true, Ok(q)) => (format!("cd \"{}\"", t), Eff::Nothing, Some(Box::new(move |s: &mut Sim| s.cwd = q))),
                    _ => ("()".to_string(), Eff::Nothing, None),
                }
            }
            18 => { let k = r.below(9); (format!("let report = x -> println \"R{}\"", k), Eff::Nothing, None) }
            _ => (format!("( {} + 1 )", n.abs()), Eff::Show(format!("{}\n", n.abs() + 1)), None),
        }
    }
}
fn words(t: &str) -> Vec<String> {
    // places where a line may end: blanks outside texts
    let (mut v, mut cur, mut q) = (vec![], String::new(), false);
    for c in t.chars() {
        if c == '"' { q = !q; }
        if c == ' ' && !q { v.push(std::mem::take(&mut cur)); } else { cur.push(c); }
    }
    v.push(cur);
    v
}
fn session(s: &mut Sim, r: &mut Rng) {
    let mut reporter: Option<String> = None;
    for _ in 0..r.range(1, 9) {
        if r.one_in(7) {
            // given up
            let start = r.pick(&["( 1 +", "let x =", "{ a = ", "println ( \"q\"", "if True {", "\"open", ")", "let"]).to_string();
            if parses(&start).is_ok() { continue; }
            s.part(start);
            for _ in 0..r.below(3) {
                let l = r.pick(&["1", "2 3", "\"t\"", "x", "  ", "( 4"]).to_string();
                let t = s.pending.join("\n") + "\n" + &l;
                if parses(&t).is_err() { s.part(l); }
            }
            let t = s.pending.join("\n") + "\n";
            if parses(&t).is_err() { s.give_up(); } else { s.finish(String::new()); s.out += "?"; }
            continue;
        }
        let (t, eff, then) = s.statement(r, true);
        if parses(&t).is_err() { continue; }
        let mut text = if r.one_in(8) { format!(" {}", t) } else { t.clone() };
        if r.one_in(4) && reporter.is_none() {
            // over several lines
            let w = words(&t);
            let mut done: Vec<String> = vec![];
            let mut line = String::new();
            for k in 0..w.len() {
                line = if line.is_empty() { w[k].clone() } else { line + " " + &w[k] };
                if k + 1 < w.len() && r.one_in(2) && !line.trim().is_empty() {
                    let mut now = done.clone();
                    if r.one_in(4) { line += r.pick(&[" # one", " #", "  "]); }
                    now.push(line.clone());
                    let with = now.join("\n") + "\n" + &w[k + 1..].join(" ");
                    if parses(&now.join("\n")).is_err() && parses(&with).is_ok() {
                        done = now;
                        line = String::new();
                    }
                }
            }
            if parses(&(done.iter().map(|x| x.clone() + "\n").collect::<String>() + &line)).map(|x| format!("{:?}", x)) == parses(&t).map(|x| format!("{:?}", x)) {
                for l in done { s.part(l); }
                text = line;
            }
        }
        s.finish(text);
        match eff {
            Eff::Nothing => {}
            Eff::Print(x) => match &reporter { Some(k) if x.ends_with("!\n") => s.out += k, _ => s.out += &x },
            Eff::Show(x) => match &reporter { Some(k) => s.out += k, None => s.out += &x },
            Eff::Fail(x) => s.out += &x,
        }
        if let Some(k) = t.strip_prefix("let report = x -> println \"") { reporter = Some(k.trim_end_matches('"').to_string() + "\n"); }
        if let Some(f) = then { f(s); }
    }
    if r.one_in(6) {
        s.part("( 1 +".to_string());
    }
    // the end of the input is met at a prompt
    s.ask();
}
/// a script of several statements: what it writes, and its value or error
fn script(s: &mut Sim, r: &mut Rng) -> (String, Result<Option<String>, String>) {
    let (mut ts, mut last) = (vec![], Ok(None));
    for _ in 0..r.range(1, 5) {
        let (t, eff, then) = s.statement(r, false);
        if parses(&t).is_err() { continue; }
        let dead: bool = Result::is_err(&last);
        ts.push(t);
        if dead { continue; }
        match eff {
            Eff::Nothing => last = Ok(None),
            Eff::Print(x) => { s.out += &x; last = Ok(None); }
            Eff::Show(x) => last = Ok(Some(x)),
            Eff::Fail(e) => last = Err(e),
        }
        if let Some(f) = then { f(s); }
    }
    if ts.is_empty() { ts.push("()".into()); }
    let t = ts.join(if r.one_in(2) { "; " } else { ";\n" }) + if r.one_in(3) { "\n" } else { "" };
    (t, last)
}
fn hints(r: &mut Rng) -> Res {
    use rustyline::hint::Hinter;
    const CMDS: [&str; 8] = ["exit 0", "ls ", "rm -ri ", "cp -r ", "head ", "tail ", "cd ", "clear"];
    let mut h = rustyline::history::History::new();
    for _ in 0..r.below(4) { h.add(*r.pick(&["ls -la", "clear all", "x + 1", "abc", " exit 0", "let x = 1"])); }
    let line: String = match r.below(4) {
        0 => { let c = r.pick(&CMDS); let k = r.below(c.len() + 1); let j = if r.one_in(2) { 0 } else { r.below(k + 1) }; c[j..k].to_string() }
        1 => { let c = *r.pick(&["ls -la", "clear all", "x + 1", "abc", "let x = 1", "é (x", "lsls "]); c.chars().take(r.below(c.len() + 1)).collect() }
        2 => "  \t ".chars().take(r.below(5)).collect(),
        _ => (0..r.below(4)).map(|_| *r.pick(&['l', 's', ' ', 'c', 'd', 'e', 'x', 'é'])).collect(),
    };
    let pos = if r.one_in(4) { r.below(line.len() + 1) } else { line.len() };
    let ctx = rustyline::Context::new(&h);
    let want = match CMDS.iter().find(|c| c.starts_with(&line)) {
        Some(c) if !line.trim().is_empty() => Some(c[line.len()..].to_string()),
        _ => rustyline::hint::HistoryHinter {}.hint(&line, pos, &ctx),
    };
    let ed = crate::new_editor(&dune::Environment::new());
    let got = ed.helper().unwrap().hint(&line, pos, &ctx);
    if got != want { return fail(format!("the hint for {:?}, cursor at {}", line, pos), format!("{:?}", want), format!("{:?}", got)); }
    Ok(())
}
fn case(seed: u64, ix: u64) -> Res {
    let mut r = Rng::new(seed, ix);
    if r.one_in(3) { for _ in 0..20 { hints(&mut r)?; } return Ok(()); }
    let d = Dir::new();
    let mut s = Sim { out: String::new(), cwd: d.0.clone(), vars: vec![], macros: vec![], fresh: 0, prompt: Ask::Default, more: Ask::Default, pending: vec![], history: vec![], saved: None, lines: vec![] };
    {
        use std::os::unix::fs::PermissionsExt;
        std::fs::write(d.0.join("hello1"), "#!/bin/sh\necho \"hi $1\"\n").expect("scratch");
        std::fs::set_permissions(d.0.join("hello1"), std::fs::Permissions::from_mode(0o755)).expect("scratch");
    }
    let mut args: Vec<String> = vec![];
    let mode = r.below(8);
    let mut told = String::new();
    if mode < 4 {
        // a file, a text, or both, and perhaps a session afterwards
        if mode != 1 {
            let name = r.pick(&["a.ds", "b c.ds", "é.ds"]).to_string();
            if r.one_in(6) {
                match r.below(3) { 0 => {}, 1 => std::fs::create_dir(d.0.join(&name)).expect("scratch"), _ => std::fs::write(d.0.join(&name), b"\xff\xfe(").expect("scratch") }
                s.out += &format!("Failed to read file: {}\n", std::fs::read_to_string(d.0.join(&name)).unwrap_err());
            } else if r.one_in(6) {
                let t = r.pick(&["println 1; ( 2", "println \"a", "let x = ;\nprintln 3"]).to_string();
                if parses(&t).is_err() { s.out += &complaint(&t); std::fs::write(d.0.join(&name), &t).expect("scratch"); told += &t; } else { return Ok(()); }
            } else {
                let (t, v) = script(&mut s, &mut r);
                if let Err(e) = v { s.out += &e; }
                std::fs::write(d.0.join(&name), &t).expect("scratch");
                told += &t;
            }
            args.push(name);
        }
        if mode == 1 || mode == 2 {
            let (t, v) = script(&mut s, &mut r);
            match v { Err(e) => s.out += &e, Ok(Some(x)) => s.out += &x, Ok(None) => {} }
            args.push("-x".into());
            if r.one_in(2) && !t.split(' ').any(|x| x.starts_with('-')) { args.extend(t.split(' ').map(String::from)); } else { args.push(t); }
        }
    }
    let interactive = mode >= 4 || r.one_in(2);
    if interactive {
        if mode < 4 { args.insert(0, "-i".into()); }
        // the prelude is a script as well
        let t = if r.one_in(3) { let mut u = Sim { out: String::new(), cwd: d.0.clone(), vars: vec![], macros: vec![], fresh: 1000, prompt: Ask::Default, more: Ask::Default, pending: vec![], history: vec![], saved: None, lines: vec![] };
            let (t, v) = script(&mut u, &mut r);
            s.out += &u.out;
            // a prelude that fails asks a question, which a line answers
            if let Err(e) = v {
                s.lines.push("n".into());
                s.out += &format!("Error while running custom prelude: {}\nWould you like me to write the default prelude to this location? (y/n)\n>>> ", e.trim_end_matches('\n'));
            }
            t
        } else { String::new() };
        std::fs::write(d.0.join(".dune-prelude"), &t).expect("scratch");
        told += &format!("\nprelude: {}", t);
        session(&mut s, &mut r);
    }
    let mut input = s.lines.join("\n");
    if !s.lines.is_empty() && r.one_in(2) || s.lines.last().map(|l| l.is_empty()).unwrap_or(false) { input += "\n"; }
    let what = format!("dunesh {:?} in {} with files {:?} and the lines {:?}", args, d.0.display(), told, input);
    super::util::note(&what);
    let (out, code) = match run(&d, &args, &input) { Ok(x) => x, Err(_) => return Ok(()) };
    if (&out, code) != (&s.out, Some(0)) { return fail(what, format!("{:?}, ending with 0", s.out), format!("{:?}, ending with {:?}", out, code)); }
    if interactive {
        let h = std::fs::read_to_string(d.0.join(".dune-history")).ok();
        let want = s.saved.filter(|h| !h.is_empty()).map(|h| "#V2\n".to_string() + &h.iter().map(|l| l.replace('\\', "\\\\").replace('\n', "\\n") + "\n").collect::<String>());
        if h != want { return fail(what, format!("the history {:?}", want), format!("{:?}", h)); }
    }
    Ok(())
}
fn fixed() -> u64 { 0 }
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "H02", fixed, case, what: "whole sessions of the program, with lines, files and texts given in every way, against what the property says is printed, reported and put in the history; hints against the list of commands", threads: 0 }]
}
