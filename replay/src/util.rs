use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// deterministic random numbers (splitmix64)
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, ix: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ ix.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

/// a case on which the real code and the reference disagree
#[derive(Clone, Debug)]
pub struct Failure {
    pub input: String,
    pub expected: String,
    pub got: String,
}
pub fn fail<T>(input: impl ToString, expected: impl ToString, got: impl ToString) -> Result<T, Failure> {
    Err(Failure { input: input.to_string(), expected: expected.to_string(), got: got.to_string() })
}
pub type Res = Result<(), Failure>;

/// One property's harness. `case` runs case number `ix` (fixed enumeration
/// first, then random cases), returns Ok when the real code agrees.
pub struct Prop {
    pub id: &'static str,
    /// number of leading cases that are enumerated exhaustively or hand picked
    pub fixed: fn() -> u64,
    pub case: fn(seed: u64, ix: u64) -> Res,
    pub what: &'static str,
    pub threads: usize,
}

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(super::p_lex::props());
    v.extend(super::p_parse::props());
    v.extend(super::p_env::props());
    v.extend(super::p_arith::props());
    v.extend(super::p_lib::props());
    v.extend(super::p_err::props());
    v.extend(super::p_term::props());
    v.extend(super::p_eval::props());
    v.extend(super::p_fs::props());
    v.extend(super::p_fsread::props());
    v.extend(super::p_math::props());
    v.extend(super::p_str::props());
    v.extend(super::p_curry::props());
    v.extend(super::p_core::props());
    v.extend(super::p_data::props());
    v.extend(super::p_rand::props());
    v.extend(super::p_sys::props());
    v.extend(super::p_prog::props());
    v.extend(super::p_fmt::props());
    v.extend(super::p_show::props());
    v.extend(super::p_report::props());
    v.extend(super::p_shell::props());
    v.extend(super::p_time::props());
    v.extend(super::p_widget::props());
    v.extend(super::p_out::props());
    v
}

thread_local! {
    pub static NOTE: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
/// what the current case is about, for reports of crashes and hangs
pub fn note(s: impl ToString) {
    let s = s.to_string();
    if let Some(slot) = SLOT.with(|x| x.borrow().clone()) {
        *slot.lock().unwrap() = s.clone();
    }
    NOTE.with(|n| *n.borrow_mut() = s);
}
/// like note, and kept in a file, for cases that may end the whole process
pub fn note_file(s: impl ToString) {
    let s = s.to_string();
    if let (Ok(d), Some(n)) = (std::env::var("VX_SCRATCH"), std::thread::current().name()) {
        let _ = std::fs::write(format!("{}/current-{}", d, n), &s);
    }
    note(s);
}
thread_local! {
    static SLOT: std::cell::RefCell<Option<Arc<Mutex<String>>>> = std::cell::RefCell::new(None);
}

fn run_case(p: &Prop, seed: u64, ix: u64) -> Res {
    NOTE.with(|n| n.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| (p.case)(seed, ix))) {
        Ok(r) => r,
        Err(_) => fail(NOTE.with(|n| n.borrow().clone()), "no crash", PANIC.with(|m| format!("crash: {}", m.borrow()))),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main() {
    if std::env::var_os("VX_SHELL").is_some() {
        return super::p_shell::child();
    }
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let id = get("--prop").unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let cases: u64 = get("--cases").and_then(|s| s.parse().ok()).unwrap_or(1000);
    let secs: u64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(60);
    let only: Option<u64> = get("--index").and_then(|s| s.parse().ok());
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i).replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let ps = props();
    let p = match ps.into_iter().find(|p| p.id == id) {
        Some(p) => Arc::new(p),
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    let t0 = Instant::now();
    if let Some(ix) = only {
        let p2 = p.clone();
        let h = std::thread::Builder::new().stack_size(2 << 30).spawn(move || run_case(&p2, seed, ix)).unwrap();
        match h.join().unwrap() {
            Ok(()) => println!("{{\"agree\": true}}"),
            Err(f) => {
                println!("{{\"agree\": false, \"input\": {}, \"expected\": {}, \"got\": {}}}", esc(&f.input), esc(&f.expected), esc(&f.got));
                std::process::exit(1);
            }
        }
        return;
    }
    let fixed = (p.fixed)();
    let total = fixed + cases;
    let nthreads = if p.threads > 0 { p.threads } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) };
    let next = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(u64, Failure)>>> = Arc::new(Mutex::new(None));
    let mut hs = vec![];
    let mut slots = vec![];
    for k in 0..nthreads {
        let (p, next, done, stop, found) = (p.clone(), next.clone(), done.clone(), stop.clone(), found.clone());
        let slot = Arc::new(Mutex::new(String::new()));
        let beat = Arc::new(AtomicU64::new(u64::MAX));
        slots.push((slot.clone(), beat.clone()));
        hs.push(
            std::thread::Builder::new()
                .name(format!("w{}", k))
                .stack_size(2 << 30)
                .spawn(move || {
                    SLOT.with(|s| *s.borrow_mut() = Some(slot));
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let a = next.fetch_add(16, Ordering::Relaxed);
                        if a >= total {
                            break;
                        }
                        for ix in a..(a + 16).min(total) {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            beat.store(ix, Ordering::Relaxed);
                            if let Err(f) = run_case(&p, seed, ix) {
                                let mut g = found.lock().unwrap();
                                if g.as_ref().map_or(true, |(i, _)| ix < *i) {
                                    *g = Some((ix, f));
                                }
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                            done.fetch_add(1, Ordering::Relaxed);
                        }
                    }
                    beat.store(u64::MAX, Ordering::Relaxed);
                })
                .unwrap(),
        );
    }
    // watch for hangs and for the time budget
    let mut seen: Vec<(u64, Instant)> = slots.iter().map(|_| (u64::MAX, Instant::now())).collect();
    let mut hung = None;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        if t0.elapsed().as_secs() >= secs {
            stop.store(true, Ordering::Relaxed);
        }
        for (i, (slot, beat)) in slots.iter().enumerate() {
            let b = beat.load(Ordering::Relaxed);
            if b != seen[i].0 {
                seen[i] = (b, Instant::now());
            } else if b != u64::MAX && seen[i].1.elapsed().as_secs() >= 60 {
                hung = Some((b, slot.lock().unwrap().clone()));
            }
        }
        if hung.is_some() {
            break;
        }
    }
    let n = done.load(Ordering::Relaxed);
    let f = match (found.lock().unwrap().clone(), hung) {
        (Some(f), _) => Some(f),
        (None, Some((ix, input))) => Some((ix, Failure { input, expected: "an answer".into(), got: "no answer within 60 s".into() })),
        _ => None,
    };
    let head = format!(
        "\"property\": \"{}\", \"seed\": {}, \"fixed\": {}, \"requested\": {}, \"agreed\": {}, \"ms\": {}, \"what\": {}",
        p.id, seed, fixed, total, n, t0.elapsed().as_millis(), esc(p.what)
    );
    match f {
        None => println!("{{{}, \"violation\": false}}", head),
        Some((ix, f)) => {
            println!(
                "{{{}, \"violation\": true, \"index\": {}, \"input\": {}, \"expected\": {}, \"got\": {}}}",
                head, ix, esc(&f.input), esc(&f.expected), esc(&f.got)
            );
            use std::io::Write;
            let _ = std::io::stdout().flush();
            std::process::exit(1);
        }
    }
}
