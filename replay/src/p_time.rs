//! How long sleeping lasts, and that the parts of now are those of the moment.
use super::p_lib::*;
use super::util::*;
use dune::Expression as X;
use std::sync::mpsc::channel;
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

extern "C" {
    fn tzset();
}
/// does it, but does not wait for it for ever
fn within<T: Send + 'static>(secs: u64, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let (tx, rx) = channel();
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || { tx.send(f()).ok(); }).expect("a thread");
    rx.recv_timeout(if secs == 0 { Duration::from_millis(200) } else { Duration::from_secs(secs) }).ok()
}
fn sleep(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let n = if r.one_in(8) { r.below(4) } else { 1 };
    let mut t = oks((0..n).map(|_| match r.below(12) {
        0 => X::Integer(i64::MIN + r.below(3) as i64),
        1 => X::Integer(-1 - r.below(50) as i64),
        2 => X::Float(-(r.below(1000) as f64) / 7.0 - 0.1),
        3 => X::Float([f64::NAN, f64::NEG_INFINITY, -1e300, -0.0, 0.9][r.below(5)]),
        4 | 5 => X::Float(r.below(240) as f64 / 10.0),
        6 => data(r, 1),
        7 => X::Integer(30 + r.below(30) as i64),
        _ => X::Integer(r.below(12) as i64),
    }).collect());
    for x in &mut t {
        // data may be numbers as well
        if matches!(x, Ok(X::Integer(n)) if *n > 100) || matches!(x, Ok(X::Float(n)) if *n > 100.0) { *x = Ok(X::Integer(3)); }
    }
    if r.one_in(8) && n > 0 { t[r.below(n)] = Err("operand failed".into()); }
    let ms = match t.first() {
        Some(Ok(X::Integer(k))) if n == 1 => if *k > 0 { *k as f64 } else { 0.0 },
        Some(Ok(X::Float(k))) if n == 1 => if *k >= 1.0 { k.floor() } else { 0.0 },
        _ => 0.0,
    };
    let what = format!("time@sleep on {:?}", t);
    let mut slow = vec![];
    for _ in 0..3 {
        let t = t.clone();
        let what2 = what.clone();
        let got = within(40, move || -> Result<Duration, Failure> {
            let callee = named(&lib(), "time", "sleep")?;
            let mut rf = Ref { table: t, trace: vec![], mode: Mode::default() };
            let start = Instant::now();
            check(&what2, &callee, &[n], &[], &mut rf, |r| {
                if n != 1 { return Err(None); }
                match r.arg(0)? { X::Integer(_) | X::Float(_) => Ok(X::None), _ => Err(None) }
            }, true)?;
            Ok(start.elapsed())
        });
        match got {
            None => slow.push("longer than 40 seconds".to_string()),
            Some(Err(f)) => return Err(f),
            Some(Ok(d)) => {
                let d = d.as_secs_f64() * 1000.0;
                if d < ms { return fail(what, format!("{} milliseconds of sleep", ms), format!("{} milliseconds", d)); }
                if d < ms + 2000.0 { return Ok(()); }
                slow.push(format!("{} milliseconds", d));
            }
        }
        // a second wait of that kind tells nothing new
        if slow[0].starts_with("longer") { break; }
    }
    fail(what, format!("{} milliseconds of sleep", ms), format!("{:?}", slow))
}
/// a sleep that is not over while the case runs
fn long(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let x = match r.below(4) {
        0 => X::Integer(i64::MAX - r.below(5) as i64),
        1 => X::Integer((1 << 32) * (1 + r.below(5) as i64) + r.below(3) as i64),
        2 => X::Float(4294967296.0 * (1 + r.below(5)) as f64),
        _ => X::Float([1e300, f64::INFINITY, 1.8e19][r.below(3)]),
    };
    let what = format!("time@sleep {:?}", x);
    note(&what);
    let got = within(0, move || named(&lib(), "time", "sleep").map(|f| X::Apply(Box::new(f), vec![x]).eval(&mut lib()).map_err(|e| e.to_string())));
    match got {
        None => Ok(()),
        Some(x) => fail(what, "a long sleep", format!("{:?}", x.ok())),
    }
}
/// the calendar: year, month and day of a day counted from 1970
fn civil(z: i64) -> (i64, i64, i64) {
    let mut d = z;
    let mut y = 1970;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    while d >= if leap(y) { 366 } else { 365 } { d -= if leap(y) { 366 } else { 365 }; y += 1; }
    let mut m = 1;
    loop {
        let n = match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 };
        if d < n { return (y, m, d + 1); }
        d -= n;
        m += 1;
    }
}
fn parts(east: i64) -> String {
    let s = SystemTime::now().duration_since(UNIX_EPOCH).expect("after 1970").as_secs() as i64 + east;
    let (y, m, d) = civil(s.div_euclid(86400));
    let (h, min) = (s.rem_euclid(86400) / 3600, s.rem_euclid(3600) / 60);
    let time = format!("{}:{:02} {}", if h % 12 == 0 { 12 } else { h % 12 }, min, if h < 12 { "AM" } else { "PM" });
    let date = format!("{:02}/{:02}/{:02}", m, d, y % 100);
    format!("date: {{str: {:?}}}, day: {}, hour: {}, month: {}, time: {{str: {:?}}}, year: {}", date, d, h, m, time, y)
}
fn now(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    // so far east of Greenwich, in minutes
    let east = r.below(2 * 23 * 60) as i64 - 23 * 60;
    let tz = format!("ABC{}{:02}:{:02}", if east > 0 { "-" } else { "" }, east.abs() / 60, east.abs() % 60);
    std::env::set_var("TZ", &tz);
    unsafe { tzset() };
    let n = r.below(3);
    let callee = named(&lib(), "time", "now")?;
    let what = format!("time@now with {} operands, TZ={}", n, tz);
    note(&what);
    let before = parts(east * 60);
    let x = X::Apply(Box::new(callee), (0..n).map(|i| X::Integer(i as i64)).collect()).eval(&mut lib());
    let after = parts(east * 60);
    let got = match &x {
        Ok(X::Map(m)) => m.iter().map(|(k, v)| format!("{}: {:?}", k, v)).collect::<Vec<_>>().join(", "),
        x => format!("{:?}", x),
    };
    if got == before || got == after { Ok(()) } else { fail(what, after, got) }
}
fn case(seed: u64, ix: u64) -> Res {
    if ix % 40 == 7 { long(seed, ix) } else if ix % 2 == 0 { now(seed, ix) } else { sleep(seed, ix) }
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "Z01", fixed: none, case, what: "how long sleeping lasts, and the parts of now in any time zone", threads: 1 }]
}
