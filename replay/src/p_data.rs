//! Texts of JSON and TOML written from values, read back by the shell's parsers.
use super::p_arith::same;
use super::p_lib::*;
use super::util::*;
use dune::Expression as X;
use std::collections::BTreeMap;

const WORDS: &[&str] = &["", "a", "key", "é", "日本", "a b", "longer than the text that is stored in place, by a few characters", "exactly thirty bytes of text!!", "x\ty", "q\"uote", "back\\slash", " a long text with a blank at either end of it ", "line\nline", "😀", "null", "true", "1", "a\0", "\0", "\u{1}\u{1f}", "\u{7f}", "\u{200b}x", "ends \r\n", "//", "/* */", "-0", "1e5", "1979-05-27", "\u{feff}", "'", " ", "e\u{301}"];
fn near(a: &X, b: &X) -> bool {
    match (a, b) {
        (X::Float(a), X::Float(b)) => a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs()),
        (X::List(a), X::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| near(a, b)),
        (X::Map(a), X::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && near(a.1, b.1)),
        _ => same(a, b),
    }
}
fn quoted(r: &mut Rng, s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if c < ' ' || c == '\x7f' || (c as u32) < 0x10000 && r.one_in(9) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn blank(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", "", " ", "\n", "\t", "  "])
}
fn number(r: &mut Rng) -> (String, f64) {
    match r.below(5) {
        0 => { let n = r.below(100) as i64 - 50; (n.to_string(), n as f64) }
        1 => { let n = (r.next() >> 12) as i64; (n.to_string(), n as f64) }
        2 => { let n = -((r.next() >> 12) as i64); (n.to_string(), n as f64) }
        3 => { let (a, b) = (r.below(1000), 1 + r.below(99)); let s = format!("{}.{:02}", a, b); let f = s.parse().unwrap(); (s, f) }
        _ => { let s = format!("{}e{}", 1 + r.below(9), r.below(20) as i64 - 10); let f = s.parse().unwrap(); (s, f) }
    }
}
/// a value as JSON text, and what it stands for
fn json(r: &mut Rng, d: usize) -> (String, X) {
    let b = blank(r);
    let (s, x) = match r.below(if d == 0 { 5 } else { 8 }) {
        0 => ("null".to_string(), X::None),
        1 => if r.one_in(2) { ("true".into(), X::Boolean(true)) } else { ("false".into(), X::Boolean(false)) },
        2 => { let n = number(r); (n.0, X::Float(n.1)) }
        3 | 4 => { let w = r.pick(WORDS).to_string(); (quoted(r, &w), X::String(w)) }
        5 | 6 => {
            let v: Vec<(String, X)> = (0..r.below(5)).map(|_| json(r, d - 1)).collect();
            (format!("[{}]", if v.is_empty() { blank(r).to_string() } else { v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(",") }), X::List(v.into_iter().map(|x| x.1).collect()))
        }
        _ => {
            let mut m = BTreeMap::new();
            let mut t = vec![];
            for _ in 0..r.below(6) {
                let k = if r.one_in(2) { r.pick(WORDS).to_string() } else { format!("k{}", r.below(20)) };
                let v = json(r, d - 1);
                t.push(format!("{}{}{}:{}", blank(r), quoted(r, &k), blank(r), v.0));
                m.insert(k, v.1);
            }
            (format!("{{{}}}", t.join(",")), X::Map(m))
        }
    };
    (format!("{}{}{}", b, s, blank(r)), x)
}
fn bare(r: &mut Rng) -> String {
    format!("{}{}", r.pick(&["a", "b", "key", "A-b", "x_1"]), r.below(9))
}
/// a value on the right of a TOML =
fn toml(r: &mut Rng, d: usize) -> (String, X) {
    match r.below(if d == 0 { 5 } else { 7 }) {
        0 => if r.one_in(2) { ("true".into(), X::Boolean(true)) } else { ("false".into(), X::Boolean(false)) },
        1 => { let n = r.next() as i64 >> r.below(60); (n.to_string(), X::Integer(n)) }
        2 => { let (a, b) = (r.below(1000), r.below(100)); let s = format!("{}.{:02}", a, b); let f = s.parse().unwrap(); (s, X::Float(f)) }
        3 => { let s = *r.pick(&["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "1979-05-27T07:32:00", "1979-05-27T00:32:00.5-07:00", "1979-05-27T07:32:00+00:00", "2000-02-29", "23:59:59.25", "1979-05-27T07:32:00.123456789Z", "0001-01-01T00:00:00+05:30"]); (s.into(), X::String(s.into())) }
        4 => { let w = r.pick(WORDS).to_string(); (quoted(r, &w), X::String(w)) }
        5 => {
            // elements of one kind
            let v: Vec<(String, X)> = if r.one_in(2) { (0..r.below(5)).map(|_| { let n = r.below(50) as i64; (n.to_string(), X::Integer(n)) }).collect() } else { (0..r.below(4)).map(|_| { let w = r.pick(WORDS).to_string(); (quoted(r, &w), X::String(w)) }).collect() };
            (format!("[{}]", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), X::List(v.into_iter().map(|x| x.1).collect()))
        }
        _ => {
            let mut m = BTreeMap::new();
            let mut t = vec![];
            for _ in 0..r.below(4) {
                let k = bare(r);
                if m.contains_key(&k) { continue; }
                let v = toml(r, d - 1);
                t.push(format!("{} = {}", k, v.0));
                m.insert(k, v.1);
            }
            (format!("{{ {} }}", t.join(", ")), X::Map(m))
        }
    }
}
fn document(r: &mut Rng) -> (String, X) {
    let mut m = BTreeMap::new();
    let mut t = String::new();
    let keys = |r: &mut Rng, m: &mut BTreeMap<String, X>, t: &mut String| {
        for _ in 0..r.below(4) {
            let k = bare(r);
            if m.contains_key(&k) { continue; }
            let v = toml(r, 2);
            t.push_str(&format!("{} = {}{}\n", k, v.0, if r.one_in(5) { " # comment" } else { "" }));
            m.insert(k, v.1);
        }
    };
    keys(r, &mut m, &mut t);
    for i in 0..r.below(3) {
        let k = format!("table{}", i);
        let mut n = BTreeMap::new();
        if r.one_in(3) {
            let mut l = vec![];
            for _ in 0..1 + r.below(3) {
                let mut n = BTreeMap::new();
                t.push_str(&format!("[[{}]]\n", k));
                keys(r, &mut n, &mut t);
                l.push(X::Map(n));
            }
            m.insert(k, X::List(l));
        } else {
            t.push_str(&format!("[{}]\n", k));
            keys(r, &mut n, &mut t);
            if r.one_in(3) {
                let mut o = BTreeMap::new();
                t.push_str(&format!("[{}.inner]\n", k));
                keys(r, &mut o, &mut t);
                n.insert("inner".into(), X::Map(o));
            }
            m.insert(k, X::Map(n));
        }
    }
    (t, X::Map(m))
}
fn broken(r: &mut Rng, name: &str) -> String {
    if name == "json" { r.pick(&["{", "[1,", "tru", "\"abc", "{1:2}", "[1 2]", "nul", "}", "{\"a\" 1}", "[,]", "1 2", "'a'", "{\"a\":}", "\u{1}", "é", "[\"a]"]).to_string() }
    else { r.pick(&["a", "a = ", "= 1", "[a", "a = 1 b = 2", "a = tru", "a = 1\na = 2", "a = \"x", "a = [1, ", "[]", "a = 1.", "é = 1", "a = 'x"]).to_string() }
}
fn j01(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let name = ["json", "toml", "json", "expr"][(ix % 4) as usize];
    let callee = named(&lib(), "parse", name)?;
    let (text, want): (String, Option<X>) = match name {
        _ if r.one_in(12) => if name == "expr" { (String::new(), Some(X::None)) } else { (broken(r, name), None) },
        "json" if r.one_in(20) => (String::new(), Some(X::None)),
        "json" => { let d = r.below(4); let (t, v) = json(r, d); (t, Some(v)) }
        "toml" => { let (t, v) = document(r); (t, Some(v)) }
        _ => { let mut t = super::p_parse::program(r); if r.one_in(3) && !t.is_empty() { let i = r.below(t.len()); t.remove(i); } let s = super::p_parse::join(r, &t); let e = s.is_empty(); (s, if e { Some(X::None) } else { None }) }
    };
    let given = X::String(text.clone());
    if name == "expr" && !text.is_empty() {
        let what = format!("parse@expr {:?}", text);
        note(&what);
        let got = X::Apply(Box::new(callee), vec![given]).eval(&mut lib());
        return match (&got, dune::parse_script(&text)) {
            (Ok(a), Ok(b)) if same(a, &b) => Ok(()),
            (Err(dune::Error::SyntaxError(s, a)), Err(b)) if &s[..] == text && format!("{:?}", b).ends_with(&format!("({:?})", a)) => Ok(()),
            (_, w) => fail(what, format!("{:?}", w), format!("{:?}", got)),
        };
    }
    let what = format!("parse@{} {:?}", name, text);
    note(&what);
    match r.below(12) {
        0 => return check(&format!("parse@{}", name), &callee, &[1], &[], &mut Ref { table: vec![Err("operand 0 failed".into())], trace: vec![], mode: Mode::default() }, |r| r.arg(0), true),
        1 => {
            let n = if r.one_in(2) { 0 } else { 2 };
            return check(&format!("parse@{}", name), &callee, &[n], &[], &mut Ref { table: vec![Ok(given); n], trace: vec![], mode: Mode::default() }, |_| Err(None), true);
        }
        _ => {}
    }
    let got = X::Apply(Box::new(callee), vec![given]).eval(&mut lib());
    match (&got, &want) {
        (Ok(a), Some(b)) if near(a, b) => Ok(()),
        (Err(_), None) => Ok(()),
        _ => fail(what, want.map(|x| format!("{:?}", x)).unwrap_or("an error".into()), format!("{:?}", got.map_err(|e| e.to_string()))),
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "J01", fixed: none, case: j01, what: "texts of JSON, TOML and Dune written from values, read back", threads: 8 }]
}
