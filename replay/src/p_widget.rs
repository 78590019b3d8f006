//! Boxes of text, and boxes put beside and above each other.
use super::p_lib::*;
use super::util::*;
use dune::Expression as X;

const BITS: &[char] = &['a', 'b', ' ', 'w', '-', 'é', '漢', '\n', ' ', 'x', '\t', '\u{301}', '\u{200b}', '\r', '\x1b', '[', 'm', '1', '─', '\u{1F600}'];
fn text(r: &mut Rng, most: usize) -> String {
    let n = match r.below(5) { 0 => 0, 1 => 1, _ => r.below(most) };
    match r.below(4) {
        0 => (0..n).map(|_| *r.pick(BITS)).collect(),
        1 => (0..n).map(|_| *r.pick(&['a', 'b', 'c', ' ', '\n'])).collect(),
        2 => (0..n).map(|_| *r.pick(&['\u{200b}', 'a', '\u{301}'])).collect(),
        _ => (0..n).map(|_| *r.pick(&['a', 'b', 'c', ' '])).collect(),
    }
}
/// the text put in a box `w` wide and `h` high
fn boxed(title: &str, text: &str, w: usize, h: usize) -> String {
    let inner = w - 2;
    let mut t = text.to_string();
    let least = (inner * 2 / 3).min(65535);
    while t.chars().count() < least { t.push(' '); }
    let t = textwrap::fill(&t, inner.min(t.len()));
    let free = inner - title.chars().count();
    let (left, right) = (free / 2, free - free / 2);
    let mut rows: Vec<String> = vec![format!("┌{}{}{}┐", "─".repeat(left), title, "─".repeat(right))];
    let mut rest: std::collections::VecDeque<char> = t.chars().filter(|c| *c != '\r').collect();
    while rows.len() + 1 < h {
        let mut row = String::new();
        if !rest.is_empty() { row.push(' '); }
        let mut n = row.len();
        while let Some(c) = rest.pop_front() {
            if c == '\n' { break; }
            row.push(c);
            n += 1;
            if n == w { break; }
        }
        rows.push(row + &" ".repeat(w - n));
    }
    rows.push(format!("└{}┘", "─".repeat(inner)));
    rows.join("\n")
}
fn whole(x: X) -> Option<i64> { if let X::Integer(n) = x { Some(n) } else { None } }
fn widget(r: &mut Rng) -> String {
    let (w, h) = (5 + r.below(8), 3 + r.below(3));
    let mut s = boxed(&"title"[..r.below(4)], &text(r, 40), w, h);
    match r.below(8) { 0 => s.push('\n'), 1 => s = s.replace('\n', "\r\n"), 2 => s = format!("  {}\n ", s), _ => {} }
    s
}
fn joins(r: &mut Rng, name: &str) -> Res {
    let callee = named(&lib(), "widget", name)?;
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 => 4, 3 => 3, _ => 2 };
    let first = widget(r);
    let mut t: Vec<Result<X, String>> = (0..n).map(|_| Ok(X::String(match r.below(7) {
        0 => widget(r),
        1 => r.pick(&["", " ", "\n", "\t\n ", "\r", "\n\n", "\u{a0}"]).to_string(),
        2 => text(r, 30),
        3 => first.chars().map(|c| if c == '─' { '-' } else { c }).collect(),
        4 => format!("\n{}", first),
        _ => first.clone(),
    }))).collect();
    if n > 0 && r.one_in(8) { let blank = r.pick(&["", " ", "\n", "a", "\n\n"]).to_string(); for x in &mut t { *x = Ok(X::String(blank.clone())); } }
    spoil(r, &mut t);
    let mut rf = Ref { table: t, trace: vec![], mode: Mode::default() };
    check(name, &callee, &[n], &[], &mut rf, |r| {
        if n < 2 { return Err(None); }
        let mut all: Vec<String> = vec![];
        for k in 0..n {
            let X::String(s) = r.arg(k)? else { return Err(None) };
            all.push(if name == "joiny" { s.trim().to_string() } else { s });
            let size = |s: &str| if name == "joiny" { s.lines().next().map(|l| l.chars().count()).unwrap_or(0) } else { s.lines().count() };
            if size(&all[k]) != size(&all[0]) { return Err(None); }
        }
        if name == "joiny" { return Ok(X::String(all.join("\n").replace('\r', ""))); }
        let mut o = String::new();
        for i in 0..all[0].lines().count() {
            for s in &all { o += s.lines().nth(i).unwrap(); }
            o += "\n";
        }
        Ok(X::String(o.replace('\r', "")))
    }, true)
}
fn w02(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    match ix % 4 { 0 => return joins(r, "joinx"), 1 => return joins(r, "joiny"), _ => {} }
    let callee = named(&lib(), "widget", "create")?;
    if r.one_in(60) {
        // wide and long: all lines are of the width asked for, and every word is there
        let w = *r.pick(&[70000i64, 98303, 98304, 98305, 98306, 98307, 120000, 150000]) + r.below(3) as i64;
        let n = *r.pick(&[10usize, 30000, 60000]);
        let s = "ab ".repeat(n);
        let what = format!("widget@create \"t\" (\"ab \" * {}) {} 6", n, w);
        note(&what);
        let got = X::Apply(Box::new(callee), vec![X::String("t".into()), X::String(s.clone()), X::Integer(w), X::Integer(6)]).eval(&mut lib());
        let out = match got { Ok(X::String(o)) => o, x => return fail(what, "a text", format!("{:?}", x.map_err(|e| e.to_string()))) };
        let words = |s: &str| s.chars().filter(|c| "ab".contains(*c)).count();
        let sizes: Vec<usize> = out.split('\n').map(|l| l.chars().count()).collect();
        if sizes != vec![w as usize; 6] || words(&out) != words(&s) { return fail(what, format!("6 lines of {} characters with {} letters", w, words(&s)), format!("{:?}, {}", sizes, words(&out))); }
        return Ok(());
    }
    let n = if r.one_in(12) { r.below(6) } else { 4 };
    let title = match r.below(6) { 0 => text(r, 12), 1 => "a\nb".to_string(), _ => "heading of it"[..r.below(13)].to_string() };
    let wide = match r.below(14) { 0 => r.below(6) as i64, 1 => -(r.below(4) as i64), 2 => i64::MIN, 3 => 5, 4 => 100 + r.below(900) as i64, _ => 5 + r.below(20) as i64 };
    let high = match r.below(10) { 0 => r.below(4) as i64, 1 => -(r.below(3) as i64), 2 => i64::MIN, 3 => 3, _ => 3 + r.below(7) as i64 };
    let mut t: Vec<Result<X, String>> = vec![Ok(X::String(title)), Ok(X::String(text(r, 120))), Ok(X::Integer(wide)), Ok(X::Integer(high))];
    if r.one_in(10) { let k = r.below(2); t[k] = Ok(data(r, 1)); }
    while t.len() < n { t.push(Ok(X::Integer(4))); }
    t.truncate(n);
    spoil(r, &mut t);
    for k in [2, 3] { if let Some(Ok(X::Integer(n))) = t.get_mut(k) { if *n > 2000 { *n %= 2000; } } }
    // a title of several lines: what comes out is not said
    if let Some(Ok(x)) = t.get(0) { if x.to_string().contains('\n') { t[0] = Ok(X::String(x.to_string().replace('\n', ""))); } }
    let mut rf = Ref { table: t, trace: vec![], mode: Mode::default() };
    check("create", &callee, &[n], &[], &mut rf, |r| {
        if n != 4 { return Err(None); }
        let title = r.arg(0)?.to_string();
        let w = match whole(r.arg(2)?) { Some(n) if n > 4 => n as usize, _ => return Err(None) };
        let text = r.arg(1)?.to_string();
        let h = match whole(r.arg(3)?) { Some(n) if n > 2 => n as usize, _ => return Err(None) };
        if title.chars().count() > w - 2 { return Err(None); }
        Ok(X::String(boxed(&title, &text, w, h)))
    }, true)
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "W02", fixed: none, case: w02, what: "boxes of text beside a direct definition, and boxes joined both ways", threads: 0 }]
}
