use super::lex;
use super::parse::P;
use super::util::*;
use dune::{parse_script, Expression as E, TokenKind as K};

/// equality of programs, floats bit by bit
pub fn same(a: &E, b: &E) -> bool {
    let all = |x: &[E], y: &[E]| x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b));
    match (a, b) {
        (E::Group(a), E::Group(b)) | (E::Quote(a), E::Quote(b)) => same(a, b),
        (E::Symbol(a), E::Symbol(b)) | (E::String(a), E::String(b)) => a == b,
        (E::Integer(a), E::Integer(b)) => a == b,
        (E::Float(a), E::Float(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (E::Bytes(a), E::Bytes(b)) => a == b,
        (E::Boolean(a), E::Boolean(b)) => a == b,
        (E::List(a), E::List(b)) | (E::Do(a), E::Do(b)) => all(a, b),
        (E::Map(a), E::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same(x, y)),
        (E::None, E::None) => true,
        (E::Assign(n, a), E::Assign(m, b)) => n == m && same(a, b),
        (E::For(n, a, b), E::For(m, c, d)) => n == m && same(a, c) && same(b, d),
        (E::If(a, b, c), E::If(d, e, f)) => same(a, d) && same(b, e) && same(c, f),
        (E::Apply(f, a), E::Apply(g, b)) => same(f, g) && all(a, b),
        (E::Lambda(p, a, x), E::Lambda(q, b, y)) => p == q && same(a, b) && same_env(x, y),
        (E::Macro(p, a), E::Macro(q, b)) => p == q && same(a, b),
        (E::Builtin(a), E::Builtin(b)) => a.name == b.name && a.body == b.body,
        _ => false,
    }
}
pub fn same_env(x: &dune::Environment, y: &dune::Environment) -> bool {
    x.bindings.len() == y.bindings.len() && x.bindings.iter().zip(y.bindings.iter()).all(|((k, a), (l, b))| k == l && same(a, b))
}

const ATOMS: &[&str] = &["1", "2", "42", "-7", "0", "0.5", "1.5", "-0.0", "x", "y", "f", "foo-bar", "\"s\"", "\"a\\nb\"", "\"\"", "\"q\\\"q\"", "True", "False", "None", "()", "9223372036854775807", "-9223372036854775808"];
const OPS: &[&[&str]] = &[&["|", ">>>", ">>", "<<"], &["&&", "||"], &["==", "!=", ">=", "<=", ">", "<"], &["+", "-"], &["*", "//", "%"], &["@"]];
const JUNK: &[&str] = &["(", ")", "[", "]", "{", "}", "'", ",", ";", "=", "->", "~>", "then", "else", "let", "for", "if", "in", "to", "!", "|", "@", "==", "+", "*", "&&", "<", "x", "1", "\"s\"", "{", "}", "(", ")"];

/// tokens of a program written by the grammar, in source order
fn gen(r: &mut Rng, level: usize, depth: usize, o: &mut Vec<String>) {
    let p = |o: &mut Vec<String>, s: &str| o.push(s.to_string());
    if depth == 0 {
        return p(o, r.pick(ATOMS));
    }
    match level {
        // expression
        0 => match r.below(14) {
            0 => {
                p(o, "let");
                p(o, r.pick(&["x", "y", "+", "g"]));
                p(o, "=");
                gen(r, 0, depth - 1, o);
            }
            1 => {
                p(o, "for");
                p(o, "i");
                p(o, "in");
                gen(r, 4, depth - 1, o);
                if r.one_in(2) {
                    p(o, "to");
                    gen(r, 4, depth - 1, o);
                }
                block(r, depth - 1, o);
            }
            2 | 3 => {
                p(o, "if");
                gen(r, 2, depth - 1, o);
                if r.one_in(2) { block(r, depth - 1, o) } else { gen(r, 6, depth - 1, o) }
                if r.one_in(2) {
                    p(o, "else");
                    match r.below(3) {
                        0 => block(r, depth - 1, o),
                        1 => gen(r, 4, depth - 1, o),
                        _ => {
                            p(o, "if");
                            gen(r, 6, depth - 1, o);
                            block(r, depth - 1, o);
                        }
                    }
                }
            }
            4 => {
                p(o, r.pick(&["x", "y"]));
                p(o, r.pick(&["->", "~>"]));
                gen(r, 0, depth - 1, o);
            }
            5 | 6 => {
                if r.one_in(5) { p(o, r.pick(&["+", "*", "==", "&&"])) } else { gen(r, 6, depth - 1, o) }
                for _ in 0..r.range(1, 3) {
                    gen(r, 3, depth - 1, o);
                }
            }
            _ => chain(r, 0, depth, o),
        },
        1..=5 if level == 3 && r.one_in(6) => {
            p(o, "!");
            gen(r, 4, depth - 1, o);
        }
        1..=5 if level == 3 && r.one_in(8) => {
            gen(r, 4, depth - 1, o);
            p(o, "to");
            gen(r, 4, depth - 1, o);
        }
        1..=6 => chain(r, level, depth, o),
        _ => match r.below(9) {
            0 | 1 => {
                p(o, "(");
                gen(r, 0, depth - 1, o);
                p(o, ")");
            }
            2 => {
                p(o, "'");
                gen(r, 6, depth - 1, o);
            }
            3 => {
                p(o, "{");
                for i in 0..r.below(3) {
                    if i > 0 {
                        p(o, ",");
                    }
                    p(o, r.pick(&["a", "b", "+"]));
                    p(o, "=");
                    gen(r, 0, depth - 1, o);
                }
                p(o, "}");
            }
            4 => block(r, depth - 1, o),
            5 => {
                p(o, "[");
                for i in 0..r.below(4) {
                    if i > 0 {
                        p(o, ",");
                    }
                    gen(r, 0, depth - 1, o);
                }
                p(o, "]");
            }
            _ => p(o, r.pick(ATOMS)),
        },
    }
}
/// operands of one level joined by its operators; levels 0,2,3,4,5,6 <-> OPS
fn chain(r: &mut Rng, level: usize, depth: usize, o: &mut Vec<String>) {
    let ops = match level {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 => 3,
        5 => 4,
        _ => 5,
    };
    let next = match level {
        0 | 1 => 2,
        l => l + 1,
    };
    let n = if r.one_in(3) { r.range(1, 4) } else { 0 };
    let d = if n == 0 { depth } else { depth - 1 };
    gen(r, next, d, o);
    for _ in 0..n {
        o.push(r.pick(OPS[ops]).to_string());
        gen(r, next, d, o);
    }
}
fn block(r: &mut Rng, depth: usize, o: &mut Vec<String>) {
    o.push("{".into());
    for _ in 0..r.below(3) {
        gen(r, 0, depth, o);
        o.push(";".into());
    }
    if r.one_in(2) {
        gen(r, 0, depth, o);
    }
    o.push("}".into());
}
/// bracket nesting: the real parser tries brackets several times over
fn nesting(o: &[String]) -> usize {
    let (mut d, mut m) = (0usize, 0);
    for t in o {
        match t.as_str() {
            "(" | "[" | "{" | "->" | "~>" | "if" | "for" => d += 1,
            ")" | "]" | "}" => d = d.saturating_sub(1),
            _ => {}
        }
        m = m.max(d);
    }
    m
}
pub fn program(r: &mut Rng) -> Vec<String> {
    loop {
        let mut o = vec![];
        let n = r.range(1, 3);
        let depth = r.range(1, 4);
        for i in 0..n {
            gen(r, 0, depth, &mut o);
            if i + 1 < n || r.one_in(4) {
                o.push(";".into());
            }
        }
        // sometimes wrong
        if r.one_in(3) {
            for _ in 0..r.range(1, 2) {
                let i = r.below(o.len() + 1);
                match r.below(3) {
                    0 => o.insert(i, r.pick(JUNK).to_string()),
                    1 if i < o.len() => {
                        o.remove(i);
                    }
                    _ if i < o.len() => o[i] = r.pick(JUNK).to_string(),
                    _ => {}
                }
            }
        }
        if !o.is_empty() && o.len() <= 60 && nesting(&o) <= 3 {
            return o;
        }
    }
}
fn classify(s: &str) -> (Vec<(K, String, bool)>, bool) {
    // the reference lexer over the whole text
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    let mut bad = false;
    while i < c.len() {
        let (n, k, b) = lex::token(&c[i..]);
        v.push((k, c[i..i + n].iter().collect(), b));
        bad |= b;
        i += n;
    }
    (v, bad)
}
fn symbol_like(k: K) -> bool {
    matches!(k, K::Symbol | K::Keyword | K::Operator | K::BooleanLiteral | K::FloatLiteral | K::IntegerLiteral)
}
fn reference(s: &str) -> Result<E, String> {
    let (t, bad) = classify(s);
    if bad {
        return Err("a flagged token".into());
    }
    for w in t.windows(2) {
        if symbol_like(w[0].0) && symbol_like(w[1].0) && w[0].1 != "@" && w[1].1 != "@" {
            return Err(format!("{:?} glued to {:?}", w[0].1, w[1].1));
        }
    }
    let t = t.into_iter().filter(|t| !matches!(t.0, K::Whitespace | K::Comment)).map(|t| (t.0, t.1)).collect();
    P { t }.script().map_err(|_| "not a program".into())
}
fn show(r: &Result<E, String>) -> String {
    match r {
        Ok(e) => format!("{:?}", e),
        Err(e) => format!("an error ({})", e),
    }
}
fn against(s: &str) -> Res {
    note(format!("parse_script({:?})", s));
    let got = parse_script(s).map_err(|e| format!("{:?}", e));
    let want = reference(s);
    let ok = match (&got, &want) {
        (Ok(a), Ok(b)) => same(a, b),
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if ok { Ok(()) } else { fail(format!("parse_script({:?})", s), show(&want), show(&got)) }
}
pub fn join(r: &mut Rng, t: &[String]) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            s.push_str(r.pick(&[" ", " ", " ", "  ", "\n", "\t", " # note (\n", "\r\n"]));
        }
        s.push_str(x);
    }
    s
}
const SP: &[&str] = &[" ", "\t", "\n", "\r\n", "  ", "\x0c", " # c\n", " #\n", " # let x = (\r\n", "# ] \"\n"];

/// P01: flags and glue are refused; blanks change nothing
fn p01(seed: u64, ix: u64) -> Res {
    let mut r = Rng::new(seed, ix);
    let base = program(&mut r);
    match r.below(5) {
        // raw text, mostly flagged or glued
        0 => {
            let s = super::p_lex::gen_text(seed, super::p_lex::fixed() + ix);
            let (t, bad) = classify(&s);
            let glued = t.windows(2).any(|w| symbol_like(w[0].0) && symbol_like(w[1].0) && w[0].1 != "@" && w[1].1 != "@");
            if t.len() > 40 || nesting(&t.iter().map(|t| t.1.clone()).collect::<Vec<_>>()) > 3 {
                return Ok(());
            }
            note(format!("parse_script({:?})", s));
            if (bad || glued) && parse_script(&s).is_ok() {
                return fail(format!("parse_script({:?})", s), if bad { "refused: a token is flagged" } else { "refused: two words are glued together" }, "a program");
            }
        }
        // a program with one bad token put in
        1 => {
            let mut t = base.clone();
            let bad = r.pick(&["`", "é", "\"\\x\"", "\"\\u{d800}\"", "\"\\u\"", "日", "\u{a0}", "\0", "\"a\\", "\"\\'\"", "\\\u{301}"]).to_string();
            let i = r.below(t.len() + 1);
            t.insert(i, bad);
            let s = t.join(" ");
            note(format!("parse_script({:?})", s));
            if classify(&s).1 && parse_script(&s).is_ok() {
                return fail(format!("parse_script({:?})", s), "refused: a token is flagged", "a program");
            }
        }
        // a program with one gap removed
        2 => {
            let i = r.below(base.len());
            let mut s = String::new();
            for (j, x) in base.iter().enumerate() {
                if j > 0 && j != i {
                    s.push(' ');
                }
                s.push_str(x);
            }
            let (t, bad) = classify(&s);
            let glued = t.windows(2).any(|w| symbol_like(w[0].0) && symbol_like(w[1].0) && w[0].1 != "@" && w[1].1 != "@");
            note(format!("parse_script({:?})", s));
            let got = parse_script(&s);
            if (bad || glued) && got.is_ok() {
                return fail(format!("parse_script({:?})", s), "refused: two words are glued together", "a program");
            }
            // and nothing else is refused for being close together
            if !bad && !glued {
                let spread = t.iter().map(|t| t.1.clone()).collect::<Vec<_>>().join(" ");
                if classify(&spread).0.iter().filter(|t| !matches!(t.0, K::Whitespace | K::Comment)).count() == t.iter().filter(|t| !matches!(t.0, K::Whitespace | K::Comment)).count() {
                    return agree(&s, &spread);
                }
            }
        }
        // the same tokens with different blanks between them
        _ => {
            let a = base.join(" ");
            let mut s = String::new();
            if r.one_in(2) {
                s.push_str(r.pick(SP));
            }
            for x in &base {
                s.push_str(x);
                for _ in 0..r.range(1, 3) {
                    s.push_str(r.pick(SP));
                }
            }
            if r.one_in(3) {
                s.push_str(" # end");
            }
            // the comment may not swallow anything
            let f = |s: &str| classify(s).0.into_iter().filter(|t| !matches!(t.0, K::Whitespace | K::Comment)).collect::<Vec<_>>();
            if f(&a) == f(&s) {
                return agree(&a, &s);
            }
        }
    }
    Ok(())
}
fn agree(a: &str, b: &str) -> Res {
    note(format!("parse_script({:?}) and parse_script({:?})", a, b));
    let (x, y) = (parse_script(a).map_err(|_| ()), parse_script(b).map_err(|_| ()));
    let ok = match (&x, &y) {
        (Ok(x), Ok(y)) => same(x, y),
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        fail(format!("parse_script({:?}) against parse_script({:?})", b, a), format!("{:?}", x), format!("{:?}", y))
    }
}

const P2: &[&str] = &["a", "@", "*", "//", "%", "+", "-", "==", "<", "to", "&&", "||", "!", "|", ">>", "<<", "(", ")", "'", ";"];
fn p02_fixed() -> u64 {
    // a OP a OP a OP a over all operators, then every sequence of 4 tokens
    17 * 17 * 17 + 20 * 20 * 20 * 20
}
fn p02(seed: u64, ix: u64) -> Res {
    let bin = ["@", "*", "//", "%", "+", "-", "==", "!=", ">=", "<=", ">", "<", "to", "&&", "||", "|", ">>"];
    if ix < 4913 {
        let i = ix as usize;
        return against(&format!("a {} 2 {} c {} \"d\"", bin[i % 17], bin[i / 17 % 17], bin[i / 289]));
    }
    if ix < p02_fixed() {
        let mut i = (ix - 4913) as usize;
        let mut v = vec![];
        for _ in 0..4 {
            v.push(P2[i % 20]);
            i /= 20;
        }
        return against(&v.join(" "));
    }
    let mut r = Rng::new(seed, ix);
    let t = program(&mut r);
    let s = join(&mut r, &t);
    against(&s)
}
const INTS: &[&str] = &[
    "0", "-0", "1", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
    "99999999999999999999999999999999999999999", "-99999999999999999999999999", "4294967296", "2147483648", "-2147483649", "9007199254740993", "0.1", "1.0", "-0.0", "0.", "123456789.987654321",
    "179769313486231570000000000000000000000000000000000.0", "0.000000000000000000000000000000000000000000000000000000000001", "True", "False", "None", "()",
    "\"\"", "\"a", "\"", "\"\\\"", "\"\\u{0}\"", "\"\\u{10ffff}\"", "\"\\u{fffff}\"", "\"\\u{e000}\"", "\"\\u{D7FF}\"", "\"\\u{00041}\"", "\"\\b\\f\\n\\r\\t\\\\\\\"\"", "\"'\"", "\"é日😀\"", "\"a\nb\"", "\"$x `\"", "\"\\u{41}\\u{42}", "\"{}\"", "\"\r\n\"", "\"\0\"",
];
fn p03(seed: u64, ix: u64) -> Res {
    let lit = if (ix as usize) < INTS.len() {
        INTS[ix as usize].to_string()
    } else {
        let mut r = Rng::new(seed, ix);
        match r.below(4) {
            0 => {
                // near the edges of the 64-bit range
                let d = r.below(40) as i128 - 20;
                let b = *r.pick(&[i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, i32::MAX as i128, u32::MAX as i128, 0]);
                (b + d).to_string()
            }
            1 => {
                let n = r.range(1, 24);
                let mut s: String = (0..n).map(|i| (b'0' + if i == 0 { 1 + r.below(9) } else { r.below(10) } as u8) as char).collect();
                if r.one_in(2) {
                    s.insert(0, '-');
                }
                if r.one_in(3) {
                    s.push('.');
                    for _ in 0..r.below(18) {
                        s.push((b'0' + r.below(10) as u8) as char);
                    }
                }
                s
            }
            _ => {
                let mut s = String::from("\"");
                for _ in 0..r.below(8) {
                    match r.below(4) {
                        0 => s.push_str(r.pick(&["\\\"", "\\\\", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u{1}", "\\u{d7ff}", "\\u{fffff}", "\\u{AbC}", "\\'", "\\a", "\\v", "\\0", "\\/", "\\e", "\\ ", "\\\n", "\\x41", "\\101"])),
                        1 => s.push_str(r.pick(&["a", "é", "日", "😀", "'", "\n", "\r\n", "\0", "\x1b", "#", "{", "$", "\u{301}", "\t"])),
                        2 => s.push_str(&format!("\\u{{{:x}}}", r.below(0x110000) as u32)),
                        _ => s.push((32 + r.below(90) as u8) as char),
                    }
                }
                if !r.one_in(6) {
                    s.push('"');
                }
                s
            }
        }
    };
    against(&lit)?;
    if ix % 3 == 0 {
        against(&format!("[{}, x]", lit))?;
        against(&format!("let y = {};", lit))?;
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P01", fixed: || 0, case: p01, what: "random programs with flagged tokens, missing gaps or different blanks", threads: 0 },
        Prop { id: "P02", fixed: p02_fixed, case: p02, what: "parse_script against a reference parser: all chains of three operators, all sequences of 4 of 20 tokens, then random programs", threads: 0 },
        Prop { id: "P03", fixed: || INTS.len() as u64, case: p03, what: "literals against their written value", threads: 0 },
    ]
}
