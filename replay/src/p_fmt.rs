//! What is put around a text to style it, and what stripping takes away.
use super::p_lib::*;
use super::util::*;
use dune::Expression as X;

const STYLES: &[(&str, u32)] = &[("bold", 1), ("faint", 2), ("italics", 3), ("underline", 4), ("blink", 5), ("invert", 7), ("strike", 9)];
const COLORS: &[&str] = &["black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"];
/// name, in fmt@dark, code
fn styles() -> Vec<(String, bool, u32)> {
    let mut v: Vec<(String, bool, u32)> = STYLES.iter().map(|(n, c)| (n.to_string(), false, *c)).collect();
    for (i, c) in COLORS.iter().enumerate() { v.push((c.to_string(), false, 90 + i as u32)); v.push((c.to_string(), true, 30 + i as u32)); }
    v
}
fn styler(name: &str, dark: bool) -> Result<X, Failure> {
    if !dark { return named(&lib(), "fmt", name); }
    match named(&lib(), "fmt", "dark")? {
        X::Map(m) if m.contains_key(name) => Ok(m[name].clone()),
        x => fail(format!("fmt@dark@{}", name), "a function of this name", format!("{:?}", x)),
    }
}
fn style(text: &str, code: u32) -> String { format!("\x1b[{}m{}\x1b[m\x1b[0m", code, text) }
fn strip(text: &str) -> String {
    let mut o = String::new();
    let mut rest = text;
    while let Some(i) = rest.find('\x1b') {
        o.push_str(&rest[..i]);
        rest = match rest[i..].find('m') { Some(j) => &rest[i + j + 1..], None => "" };
    }
    o + rest
}
fn text(r: &mut Rng) -> String {
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 => r.below(60), _ => r.below(14) };
    let kind = r.below(3);
    let mut s = String::new();
    for _ in 0..n {
        match kind {
            0 => s.push(*r.pick(&['a', 'm', 'b', 'm', ' ', '[', '0', ';', 'é', '\n', 'M', 'K', '\\', ']'])),
            1 => s.push(*r.pick(&['a', 'm', '\x1b', '[', '1', ' ', 'm', 'K', '\x1b', '\u{9b}', 'x', '\u{7}', '\n', '漢', '\t', '\r', '\x08', '\0'])),
            _ => { if r.one_in(4) { s = style(&s, *r.pick(&[1, 31, 95, 0])); } else { s.push(*r.pick(&['a', 'b', ' ', 'm', 'e'])); } }
        }
    }
    s
}
fn words(r: &mut Rng) -> String {
    let n = r.below(14);
    let mut s = String::new();
    for _ in 0..n {
        if !s.is_empty() { s.push_str(*r.pick(&[" ", " ", " ", "  ", "\n", "-"])); }
        let most = if r.one_in(6) { 30 } else { 7 };
        for _ in 0..1 + r.below(most) { s.push(*r.pick(&['a', 'b', 'm', 'x'])); }
    }
    s
}
fn value(r: &mut Rng) -> X {
    match r.below(8) { 0 => data(r, 1), 1 => X::Integer(r.next() as i64), _ => X::String(text(r)) }
}
fn f01(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let all = styles();
    if ix % 211 == 7 {
        // long texts in wide lines: every word is there, and no line is wider
        let (n, c) = (*r.pick(&[23000usize, 23170, 23171, 40000, 60000]), *r.pick(&[46000i64, 46001, 46340, 46342, 50000, 92681, 119999, i64::MAX]));
        let s = "a ".repeat(n) + "bb";
        let what = format!("fmt@wrap ((\"a \" * {}) + \"bb\") {}", n, c);
        note(&what);
        let got = X::Apply(Box::new(named(&lib(), "fmt", "wrap")?), vec![X::String(s.clone()), X::Integer(c)]).eval(&mut lib());
        let out = match got { Ok(X::String(o)) => o, x => return fail(what, "a text", format!("{:?}", x.map_err(|e| e.to_string()))) };
        let words: Vec<&str> = out.split_whitespace().collect();
        let wide = out.lines().map(|l| l.len()).max().unwrap_or(0);
        if words != s.split_whitespace().collect::<Vec<_>>() || wide as i64 > c || (2 * n + 1 < c as usize && out != s) {
            return fail(what, format!("the {} words in lines of at most {} characters", n + 1, c), format!("{} words, lines of up to {}", words.len(), wide));
        }
        return Ok(());
    }
    let k = (ix % 40) as usize;
    if k < all.len() {
        let (name, dark, code) = &all[k];
        let callee = styler(name, *dark)?;
        let n = match r.below(8) { 0 => 0, 1 => 2, 2 => 3, _ => 1 };
        let mut t: Vec<Result<X, String>> = (0..n).map(|_| Ok(value(r))).collect();
        if n > 0 && r.one_in(8) { let k = r.below(n); t[k] = Err("operand failed".to_string()); }
        let mut rf = Ref { table: t, trace: vec![], mode: Mode::default() };
        let code = *code;
        return check(name, &callee, &[n], &[], &mut rf, |r| {
            if n == 0 { return Err(None); }
            Ok(X::String(style(&r.arg(0)?.to_string(), code)))
        }, true);
    }
    let name = ["strip", "strip", "strip", "wrap", "wrap", "href"][k % 6];
    let callee = named(&lib(), "fmt", name)?;
    let arity = if name == "strip" { 1 } else { 2 };
    let n = if r.one_in(10) { r.below(4) } else { arity };
    let mut t: Vec<Result<X, String>> = (0..n).map(|_| Ok(value(r))).collect();
    if name == "wrap" && n == 2 {
        t[0] = Ok(X::String(words(r)));
        t[1] = Ok(X::Integer(match r.below(8) { 0 => i64::MAX - r.below(2) as i64, 1 => 0, 2 => -(r.below(3) as i64), 3 => r.next() as i64, _ => 1 + r.below(24) as i64 }));
    }
    spoil(r, &mut t);
    let whole = t.clone();
    let mut rf = Ref { table: t, trace: vec![], mode: Mode::default() };
    check(name, &callee, &[n], &[], &mut rf, |r| {
        if n != arity { return Err(None); }
        Ok(X::String(match name {
            "strip" => strip(&r.arg(0)?.to_string()),
            "href" => { let u = r.arg(0)?; let t = r.arg(1)?; format!("\x1b]8;;{}\x1b\\{}\x1b]8;;\x1b\\", u, t) }
            _ => match r.arg(1)? {
                X::Integer(c) if c >= 0 => { let t = r.arg(0)?.to_string(); textwrap::fill(&t, c.min(5000) as usize) },
                _ => return Err(None),
            },
        }))
    }, true)?;
    // what wrapping is for
    if let ("wrap", [Ok(X::String(s)), Ok(X::Integer(c))]) = (name, &whole[..]) {
        if *c < 0 { return Ok(()); }
        let got = X::Apply(Box::new(callee), vec![X::String(s.clone()), X::Integer(*c)]).eval(&mut lib());
        let what = format!("fmt@wrap {:?} {}", s, c);
        let out = match got { Ok(X::String(o)) => o, x => return fail(what, "a text", format!("{:?}", x.map_err(|e| e.to_string()))) };
        let ink = |x: &str| x.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        if ink(&out) != ink(s) || (s.chars().all(|c| c == '\n' || (' '..='~').contains(&c)) && out.lines().any(|l| l.len() as i64 > (*c).max(1))) {
            return fail(what, "the same words in lines of so many columns", format!("{:?}", out));
        }
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "F01", fixed: none, case: f01, what: "styles, stripping, wrapping and links beside their definitions", threads: 8 }]
}
