//! How values are written in a line and displayed in tables, beside a direct definition.
use super::p_lib::*;
use super::util::*;
use dune::{Environment, Expression as X};
use prettytable::format::{LinePosition, LineSeparator};
use prettytable::{Cell, Row, Table};
use std::collections::BTreeMap;

fn columns() -> usize {
    match terminal_size::terminal_size() { Some((terminal_size::Width(n), _)) => n as usize, None => 120 }
}
fn joined(v: &[X], sep: &str) -> String {
    let mut s = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 { s += sep; }
        s += &written(x);
    }
    s
}
pub(super) fn written(x: &X) -> String {
    match x {
        X::Quote(x) => "'".to_string() + &written(x),
        X::Group(x) => "(".to_string() + &written(x) + ")",
        X::Symbol(n) => n.clone(),
        X::Integer(n) => n.to_string(),
        X::Float(n) => n.to_string(),
        X::Bytes(b) => format!("b[{}]", b.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ")),
        X::String(s) => format!("{:?}", s),
        X::Boolean(true) => "True".into(),
        X::Boolean(false) => "False".into(),
        X::List(v) => "[".to_string() + &joined(v, ", ") + "]",
        X::Map(m) => "{".to_string() + &m.iter().map(|(k, x)| k.clone() + ": " + &written(x)).collect::<Vec<_>>().join(", ") + "}",
        X::None => "None".into(),
        X::Lambda(p, b, _) => p.clone() + " -> " + &written(b),
        X::Macro(p, b) => p.clone() + " ~> " + &written(b),
        X::For(n, l, b) => "for ".to_string() + n + " in " + &written(l) + " " + &written(b),
        X::Do(v) => "{ ".to_string() + &joined(v, "; ") + " }",
        X::Assign(n, x) => "let ".to_string() + n + " = " + &written(x),
        X::If(c, a, b) => "if ".to_string() + &written(c) + " " + &written(a) + " else " + &written(b),
        X::Apply(f, a) => written(f) + " " + &joined(a, " "),
        X::Builtin(b) => "builtin@".to_string() + &b.name,
    }
}
fn styled(border: char, s: [[char; 4]; 4]) -> Table {
    let mut t = Table::new();
    let p = [LinePosition::Top, LinePosition::Title, LinePosition::Intern, LinePosition::Bottom];
    for (p, s) in p.into_iter().zip(s) { t.get_format().separator(p, LineSeparator::new(s[0], s[1], s[2], s[3])); }
    t.get_format().borders(border);
    t.get_format().column_separator(border);
    t.get_format().padding(1, 1);
    t
}
fn drawn(mut t: Table, rows: Vec<Vec<String>>) -> String {
    for r in rows { t.add_row(Row::new(r.iter().map(|c| Cell::new(c)).collect())); }
    t.to_string()
}
fn pictured(x: &X, w: usize) -> String {
    match x {
        X::String(s) => s.clone(),
        X::List(v) => {
            let cells: Vec<String> = v.iter().map(|x| if let X::String(_) = x { written(x) } else { pictured(x, columns()) }).collect();
            let room = 1 + cells.iter().map(|c| c.split('\n').next().unwrap_or("").trim_end_matches('\r').len() + 1).sum::<usize>();
            if room > w { return written(x); }
            drawn(styled('┃', [['━', '┳', '┏', '┓'], ['━', '╋', '┣', '┫'], ['━', '╋', '┣', '┫'], ['━', '┻', '┗', '┛']]), vec![cells])
        }
        X::Map(m) => {
            let rows = m.iter().map(|(k, x)| match x {
                X::Builtin(b) => vec![k.clone(), written(x), textwrap::fill(&b.help, w / 6)],
                X::Map(_) => vec![k.clone(), pictured(x, w)],
                X::List(_) => { let rest = if w > k.len() + 3 { w - k.len() - 3 } else { 0 }; vec![k.clone(), textwrap::fill(&pictured(x, rest), rest)] }
                _ => vec![k.clone(), textwrap::fill(&written(x), w / 3)],
            }).collect();
            drawn(styled('│', [['═', '╤', '╒', '╕'], ['═', '╪', '╞', '╡'], ['─', '┼', '├', '┤'], ['─', '┴', '└', '┘']]), rows)
        }
        x => written(x),
    }
}
pub(super) fn text(r: &mut Rng) -> String {
    let n = match r.below(8) { 0 => 0, 1 => r.below(150), _ => r.below(12) };
    (0..n).map(|_| *r.pick(&['a', 'b', ' ', 'é', '漢', '\n', '"', '\\', '\t', 'x', 'y', '\r', '\x1b', '1', ',', '\u{301}'])).collect()
}
pub(super) fn key(r: &mut Rng) -> String {
    match r.below(9) { 0 => "k".repeat(100 + r.below(40)), 1 => text(r), 2 => "é".repeat(50 + r.below(20)), _ => ["a", "name", "key", "list", "x y", "ключ"][r.below(6)].to_string() }
}
fn nothing(_: Vec<X>, _: &mut Environment) -> Result<X, dune::Error> { Ok(X::None) }
pub(super) fn any(r: &mut Rng, d: usize) -> X {
    let kind = if d == 0 { 4 + r.below(9) } else { r.below(26) };
    let b = |r: &mut Rng| Box::new(any(r, d - 1));
    let many = |r: &mut Rng| { let n = match r.below(8) { 0 => 0, 1 => 1, 2 => r.below(30), _ => r.below(5) }; (0..n).map(|_| any(r, d - 1)).collect::<Vec<_>>() };
    match kind {
        4 => X::Integer(r.next() as i64), 5 => X::Integer(r.below(100) as i64), 6 => X::Float(f64::from_bits(r.next())),
        7 => X::Float(*r.pick(&[0.0, -0.0, 1.5, f64::NAN, f64::INFINITY, 1e300, 1e-7, 3.0])),
        8 | 9 => X::String(text(r)), 10 => X::Symbol(key(r)), 11 => X::Boolean(r.one_in(2)), 12 => X::None,
        13 => X::Bytes((0..r.below(6)).map(|_| r.next() as u8).collect()),
        14 => X::Builtin(dune::Builtin { name: key(r), body: nothing, help: text(r) + " " + &text(r) }),
        15 => X::Lambda(key(r), b(r), Environment::new()), 16 => X::Macro(key(r), b(r)), 17 => X::For(key(r), b(r), b(r)),
        18 => X::If(b(r), b(r), b(r)), 19 => X::Apply(b(r), many(r)), 20 => X::Do(many(r)), 21 => X::Assign(key(r), b(r)),
        22 => X::Quote(b(r)), 23 => X::Group(b(r)),
        0 | 1 | 24 => X::List(many(r)),
        _ => { let mut m = BTreeMap::new(); for _ in 0..r.below(5) { m.insert(key(r), any(r, d - 1)); } X::Map(m) }
    }
}
fn v01(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let d = r.below(4);
    let mut x = any(r, d);
    if r.one_in(6) {
        // lists about as wide as the terminal
        let mut room = columns() + r.below(7);
        let mut v = vec![];
        room = room.saturating_sub(4);
        while room > 0 && v.len() < 200 {
            let n = (1 + r.below(30)).min(room);
            v.push(match r.below(4) { 0 if n > 2 => X::String("s".repeat(n - 2)), 1 if n > 3 && n % 2 == 0 => X::Symbol("é".repeat(n / 2)), 2 if n < 18 => X::Integer(10i64.pow(n as u32 - 1)), _ => X::Symbol("a".repeat(n)) });
            room -= n;
            room = room.saturating_sub(1);
        }
        x = X::List(v);
        if r.one_in(3) { let mut m = BTreeMap::new(); m.insert(key(r), x); x = X::Map(m); }
    }
    let line = written(&x);
    let what = format!("the value {}", line);
    note(&what);
    let got = format!("{:?}", x);
    if got != line { return fail(format!("{{:?}} of {}", what), line, got); }
    let want = pictured(&x, columns());
    let got = format!("{}", x);
    if got != want { return fail(format!("{{}} of {}", what), want, got); }
    if let X::Map(_) | X::List(_) = x {
        let w = match r.below(4) { 0 => r.below(12), 1 => 100 + r.below(60), _ => r.below(200) };
        let what = format!("{{:{}}} of {}", w, what);
        note(&what);
        let want = pictured(&x, w);
        let got = format!("{:w$}", x);
        if got != want { return fail(what, want, got); }
    }
    if let X::Builtin(b) = &x {
        if b.to_string() != line || format!("{:?}", b) != line { return fail(what, line, format!("{} {:?}", b, b)); }
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "V01", fixed: none, case: v01, what: "values of every kind, written in a line and displayed in terminals of any width", threads: 0 }]
}
