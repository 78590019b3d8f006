//! The string library against reference implementations written over vectors of characters.
use super::p_lib::*;
use super::util::*;
use dune::Expression as X;

const F: &[(&str, usize)] = &[
    ("to-string", 1), ("caesar", 2), ("get-width", 1), ("is-whitespace?", 1), ("is-alpha?", 1), ("is-alphanumeric?", 1), ("is-numeric?", 1),
    ("is-lower", 1), ("is-upper", 1), ("is-title", 1), ("to-lower", 1), ("to-upper", 1), ("to-title", 1), ("split", 2), ("join", 2), ("lines", 1),
    ("chars", 1), ("words", 1), ("paragraphs", 1), ("split-at", 2), ("trim", 1), ("trim-start", 1), ("trim-end", 1), ("replace", 3),
    ("starts-with?", 2), ("ends-with?", 2), ("contains?", 2), ("len", 1), ("rev", 1),
];
const POOLS: &[&[char]] = &[
    &['a', 'b', 'c', 'z', 'm'], &['A', 'B', 'Z', 'a', 'z', 'N'], &['a', 'b', ' ', '\n', '\t', 'C', 'd'], &['a', '\n'], &['\n', '\r', 'a', 'b'], &[' ', '\t', '\u{a0}', '\u{3000}', '\u{85}'],
    &['é', 'ß', 'Σ', 'σ', 'İ', 'ı', 'ŉ', '日', 'a', ' '], &['0', '5', '٣', '½', 'a', 'Z', '_', '-'], &['a', '@', '[', '`', '{', 'Z', 'z', 'A', '🦀'], &['\0', '\u{7f}', '\u{200b}', '\u{300}', '\u{10ffff}', 'q'],
    &['n', 'o', 'N', 'O', ' '], &['a', 'b'], &['²', '½', 'Ⅷ', '٣', '一', '5'], &['\u{feff}', ' ', '\u{2028}', '\u{1680}', '\u{200b}', '\u{180e}'], &['ﬁ', 'ǆ', 'ǅ', 'ᾳ', 'ª', ' ', 'ẞ'], &['\u{200d}', '👩', 'e', '\u{301}', '\u{fe0f}'], &['-', '.', '\'', 'x', '’', '1'],
];
fn text(r: &mut Rng) -> String {
    let p = *r.pick(POOLS);
    let n = match r.below(6) { 0 => r.below(2), 1 => r.below(30), _ => r.below(9) };
    (0..n).map(|_| *r.pick(p)).collect()
}
fn txt(r: &mut Rng) -> X {
    let s = text(r);
    if r.one_in(6) { X::Symbol(s) } else { X::String(s) }
}
/// a piece of s, or something else
fn piece(r: &mut Rng, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    if c.is_empty() || r.one_in(5) { return text(r).chars().take(2).collect(); }
    let (a, n) = (r.below(c.len()), 1 + r.below(3));
    match r.below(6) {
        0 => c[..n.min(c.len())].iter().collect(),
        1 => c[c.len().saturating_sub(n)..].iter().collect(),
        2 => String::new(),
        _ => c[a..(a + n).min(c.len())].iter().collect(),
    }
}
fn words_of(c: &[char], at: &dyn Fn(char) -> bool) -> Vec<String> {
    let mut o = vec![];
    let mut w = String::new();
    for &x in c {
        if at(x) { if !w.is_empty() { o.push(std::mem::take(&mut w)); } } else { w.push(x); }
    }
    if !w.is_empty() { o.push(w); }
    o
}
/// where p occurs in s, from the left, without overlaps
fn occurrences(s: &[char], p: &[char]) -> Vec<usize> {
    let mut o = vec![];
    let mut i = 0;
    while i + p.len() <= s.len() {
        if s[i..i + p.len()] == *p { o.push(i); i += p.len().max(1); } else { i += 1; }
    }
    o
}
fn pieces(s: &[char], p: &[char]) -> Vec<String> {
    let mut o = vec![];
    let mut from = 0;
    for i in occurrences(s, p) { o.push(s[from..i].iter().collect()); from = i + p.len(); }
    o.push(s[from..].iter().collect());
    o
}
fn titled(s: &[char]) -> String {
    let mut o = String::new();
    for (i, c) in s.iter().enumerate() {
        let first = i == 0 || s[i - 1].is_whitespace();
        o.push(if first { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() });
    }
    o
}
fn reference(name: &str, t: &[X]) -> W {
    fn s(x: &X) -> Option<Vec<char>> { match x { X::String(s) | X::Symbol(s) => Some(s.chars().collect()), _ => None } }
    let strs = |v: Vec<String>| Ok(X::List(v.into_iter().map(X::String).collect()));
    let str_ = |v: &[char]| Ok(X::String(v.iter().collect()));
    let yes = |b: bool| Ok(X::Boolean(b));
    let shown = |x: &X| -> Vec<char> { format!("{}", x).chars().collect() };
    if name == "to-string" { return Ok(X::String(format!("{}", t[0]))); }
    if name == "len" { return match &t[0] { X::List(l) => Ok(X::Integer(l.len() as i64)), X::String(l) => Ok(X::Integer(l.len() as i64)), X::Bytes(l) => Ok(X::Integer(l.len() as i64)), X::Map(l) => Ok(X::Integer(l.len() as i64)), _ => Err(None) }; }
    if name == "rev" {
        return match &t[0] {
            X::List(l) => Ok(X::List(l.iter().rev().cloned().collect())), X::Bytes(l) => Ok(X::Bytes(l.iter().rev().cloned().collect())),
            X::String(l) => Ok(X::String(l.chars().rev().collect())), _ => Err(None),
        };
    }
    if name == "join" {
        return match &t[0] {
            X::List(l) => {
                let mut o = vec![];
                for (i, x) in l.iter().enumerate() { if i > 0 { o.extend(shown(&t[1])); } o.extend(shown(x)); }
                str_(&o)
            }
            _ => Ok(X::None),
        };
    }
    let lax = matches!(name, "caesar" | "get-width" | "lines" | "words" | "paragraphs" | "split-at" | "replace" | "starts-with?" | "ends-with?" | "contains?");
    let c = match (name, s(&t[0])) {
        (_, Some(c)) => c,
        ("get-width", None) => return Ok(X::Integer(0)),
        _ => return if lax { Ok(X::None) } else { Err(None) },
    };
    match name {
        "caesar" => match t.get(1).cloned().unwrap_or(X::Integer(13)) {
            X::Integer(k) => {
                let k = (k as i128).rem_euclid(26) as u32;
                str_(&c.iter().map(|&x| match x { 'a'..='z' => char::from_u32((x as u32 - 97 + k) % 26 + 97).unwrap(), 'A'..='Z' => char::from_u32((x as u32 - 65 + k) % 26 + 65).unwrap(), _ => x }).collect::<Vec<_>>())
            }
            _ => Ok(X::None),
        },
        "get-width" => Ok(X::Integer(pieces(&c, &['\n']).iter().map(|l| l.chars().count()).max().unwrap() as i64)),
        "is-whitespace?" => yes(c.iter().all(|x| x.is_whitespace())),
        "is-alpha?" => yes(c.iter().all(|x| x.is_alphabetic())),
        "is-alphanumeric?" => yes(c.iter().all(|x| x.is_alphanumeric())),
        "is-numeric?" => yes(c.iter().all(|x| x.is_numeric())),
        "is-lower" => yes(c.iter().all(|x| x.is_lowercase())),
        "is-upper" => yes(c.iter().all(|x| x.is_uppercase())),
        "is-title" => yes(titled(&c).chars().eq(c.iter().cloned())),
        "to-title" => Ok(X::String(titled(&c))),
        "to-lower" => Ok(X::String(c.iter().collect::<String>().to_lowercase())),
        "to-upper" => Ok(X::String(c.iter().collect::<String>().to_uppercase())),
        "split" => match s(&t[1]) { Some(y) => strs(if c.is_empty() { y.iter().collect::<String>().split("").map(String::from).collect() } else { pieces(&y, &c) }), None => Err(None) },
        "lines" => {
            let mut l = pieces(&c, &['\n']);
            let n = l.len();
            if l[n - 1].is_empty() { l.pop(); }
            // a line ends with a newline, or with a carriage return and a newline
            let ended = l.len();
            strs(l.into_iter().enumerate().map(|(i, x)| if (i + 1 < n || ended < n) && x.ends_with('\r') { x[..x.len() - 1].to_string() } else { x }).collect())
        }
        "chars" => strs(c.iter().map(|x| x.to_string()).collect()),
        "words" => strs(words_of(&c, &|x| x.is_whitespace())),
        "paragraphs" => strs(pieces(&c, &['\n', '\n'])),
        "split-at" => match &t[1] {
            X::Integer(k) => {
                let mut at = 0i128;
                let mut i = 0;
                while at < *k as i128 && i < c.len() { at += c[i].len_utf8() as i128; i += 1; }
                if at != *k as i128 { return Err(None); }
                strs(vec![c[..i].iter().collect(), c[i..].iter().collect()])
            }
            _ => Ok(X::None),
        },
        "trim" | "trim-start" | "trim-end" => {
            let (mut a, mut b) = (0, c.len());
            if name != "trim-end" { while a < b && c[a].is_whitespace() { a += 1; } }
            if name != "trim-start" { while a < b && c[b - 1].is_whitespace() { b -= 1; } }
            str_(&c[a..b])
        }
        "replace" => {
            let (p, q) = (shown(&t[1]), shown(&t[2]));
            let mut o = vec![];
            let mut from = 0;
            for i in occurrences(&c, &p) { o.extend(&c[from..i]); o.extend(&q); from = i + p.len(); }
            o.extend(&c[from..]);
            str_(&o)
        }
        "starts-with?" | "ends-with?" | "contains?" => {
            let p = shown(&t[1]);
            let at = |i: usize| i + p.len() <= c.len() && c[i..i + p.len()] == p[..];
            yes(match name { "starts-with?" => at(0), "ends-with?" => p.len() <= c.len() && at(c.len() - p.len()), _ => (0..=c.len()).any(at) })
        }
        _ => fail_closed(),
    }
}
fn fail_closed() -> W { Err(Some("no such function".into())) }
fn w01(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let (name, arity) = F[(ix % F.len() as u64) as usize];
    let mut callee = named(&lib(), "string", name)?;
    let a = txt(r);
    let s = match &a { X::String(s) | X::Symbol(s) => s.clone(), _ => String::new() };
    let other = |r: &mut Rng, s: &str| -> X { if r.one_in(8) { data(r, 1) } else { X::String(piece(r, s)) } };
    let mut t = match name {
        "to-string" => vec![if r.one_in(3) { a } else { data(r, 2) }],
        "caesar" => if r.one_in(5) { vec![a] } else { vec![a, X::Integer(match r.below(5) { 0 => *r.pick(&[i64::MIN, i64::MAX, 0, 13, 26, -26, 25, -1, 255, 256, 52]), 1 => r.next() as i64, _ => r.below(120) as i64 - 60 })] },
        "split" => { let s = text(r); let p = piece(r, &s); vec![X::String(p), X::String(s)] }
        "join" => {
            let n = r.below(5);
            vec![X::List((0..n).map(|_| if r.one_in(3) { data(r, 1) } else { X::String(text(r)) }).collect()), if r.one_in(4) { data(r, 1) } else { X::String(text(r).chars().take(2).collect()) }]
        }
        "split-at" => {
            let k = match r.below(8) { 0 => s.len() as i64 + 1, 1 => -1 - r.below(4) as i64, 2 => *r.pick(&[i64::MIN, i64::MAX, 1 << 32, (1 << 32) + 1]), 3 => s.len() as i64, _ => r.below(s.len() + 1) as i64 };
            vec![a, X::Integer(k)]
        }
        "replace" => { let p = other(r, &s); let q = other(r, &s); vec![a, p, q] }
        "starts-with?" | "ends-with?" | "contains?" => { let p = other(r, &s); vec![a, p] }
        "len" | "rev" => vec![X::String(s)],
        _ => vec![a],
    };
    let mut t = oks(t);
    spoil(r, &mut t);
    if r.one_in(12) {
        let m = r.below(5);
        t = (0..m).map(|i| Ok(t.get(i).and_then(|x| x.clone().ok()).unwrap_or(X::String("x".into())))).collect();
    }
    let n = t.len();
    let mut groups = vec![n];
    let curried = name == "split";
    if curried {
        // too few or too many operands make another function: not here
        if n != 2 { return Ok(()); }
        if r.one_in(2) { groups = vec![1, 1]; }
    }
    let order = !matches!(name, "len" | "rev");
    let mut rf = Ref { table: t, trace: vec![], mode: Default::default() };
    check(name, &callee, &groups, &[], &mut rf, |r| {
        let w = (|| -> W {
            if !(n == arity || (name == "caesar" && n == 1)) { return Err(None); }
            let mut v = vec![];
            for k in 0..n { v.push(r.arg(k)?); }
            reference(name, &v)
        })();
        if curried { fails_as_any(w) } else { w }
    }, !curried && order)
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "W01", fixed: none, case: w01, what: "every function of the string library, by its registered name, on texts of one to four byte characters, pieces of them, boundary indices and shifts, wrong types and operand counts, against references over vectors of characters", threads: 0 }]
}
