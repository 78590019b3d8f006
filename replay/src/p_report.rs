//! What errors report, beside a direct definition.
use super::p_lib::none;
use super::p_show::{any, key, text, written};
use super::util::*;
use dune::{parse_script, Diagnostic as D, Error as E, Expression as X, SyntaxError as S};

const RED: &str = "\u{1b}[38;5;9m";
const BOLD: &str = "\u{1b}[1m";
const RESET: &str = "\u{1b}[m\u{1b}[0m";

fn cut(s: &str, n: usize) -> String { s.chars().take(n).collect() }
/// the lines of a text, without their ends
fn lines(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split('\n').collect();
    let last = v.pop().unwrap();
    for x in v.iter_mut() { if x.ends_with('\r') { *x = &x[..x.len() - 1]; } }
    if !last.is_empty() { v.push(last); }
    v
}
fn numbered(n: usize, t: &str) -> String {
    let d = n.to_string();
    " ".repeat(5usize.saturating_sub(d.len())) + &d + " | " + t
}
fn excerpt(s: &str, a: usize, b: usize) -> String {
    let w = 72;
    let n = 1 + s[..a].bytes().filter(|c| *c == b'\n').count();
    let begun = &s[s[..a].rfind('\n').map(|i| i + 1).unwrap_or(0)..a];
    let rest = if s[a..b].ends_with('\n') { "" } else { lines(&s[b..]).first().copied().unwrap_or("") };
    let l = lines(&s[a..b]);
    let mut o = "      |\n".to_string();
    if l.len() < 2 {
        let m = l.first().copied().unwrap_or("");
        let used = begun.chars().count().min(w);
        o += &numbered(n, &(cut(begun, w) + RED + m + RESET + &cut(rest, w - used)));
    } else {
        o += &numbered(n, &(cut(&(begun.to_string() + RED + l[0]), w) + RESET));
        for (i, x) in l.iter().enumerate().skip(1) {
            o += "\n";
            o += &numbered(n + i, &(RED.to_string() + &cut(x, w) + RESET));
        }
        let used = l[l.len() - 1].chars().count();
        o += &("\n".to_string() + &cut(rest, w.saturating_sub(used)) + RESET);
    }
    o + "\n      |\n"
}
fn head(t: &str) -> String { RED.to_string() + BOLD + t + RESET + ": " }
type Sl = detached_str::StrSlice;
fn at(s: &str, x: &Sl) -> String { excerpt(s, x.start(), x.end()) }
fn part<'a>(s: &'a str, x: &Sl) -> &'a str { &s[x.start()..x.end()] }
fn diagnostic(s: &str, d: &D) -> String {
    match d {
        D::Valid => String::new(),
        D::InvalidStringEscapes(v) => v.iter().map(|x| head("syntax error") + "invalid string escape sequence `" + part(s, x).trim() + "`\n" + &at(s, x)).collect(),
        D::InvalidNumber(x) => head("syntax error") + "invalid number `" + part(s, x).trim() + "`\n" + &at(s, x),
        D::IllegalChar(x) => head("syntax error") + &format!("invalid token {:?}\n", part(s, x)) + &at(s, x),
        D::NotTokenized(x) => head("error") + "there are leftover tokens after tokenizing: " + part(s, x) + "\n" + &at(s, x),
    }
}
fn syntax(s: &str, e: &S) -> String {
    match e {
        S::Expected { input, expected, found, hint } => {
            let mut o = head("syntax error") + "expected " + expected;
            if let Some(x) = found { o += ", found "; o += x; }
            o += "\n";
            o += &at(s, input);
            if let Some(x) = hint { o += "    hint: "; o += x; o += "\n"; }
            o
        }
        S::TokenizationErrors(v) => v.iter().map(|d| diagnostic(s, d)).collect(),
        S::ExpectedChar { expected, at: x } => head("syntax error") + &format!("expected {:?}\n", expected) + &x.as_ref().map(|x| at(s, x)).unwrap_or_default(),
        S::NomError { kind, at: x, cause } => head("unexpected syntax error") + &format!("`{:?}`\n", kind) + &x.as_ref().map(|x| at(s, x)).unwrap_or_default() + &cause.as_ref().map(|c| syntax(s, c)).unwrap_or_default(),
        S::InternalError => RED.to_string() + BOLD + "unexpected syntax error" + RESET + "\n",
    }
}
fn all(v: &[X]) -> String { v.iter().map(written).collect::<Vec<_>>().join(", ") }
fn report(e: &E) -> String {
    match e {
        E::CannotApply(f, a) => "cannot apply `".to_string() + &written(f) + "` to the arguments [" + &all(a) + "]",
        E::SymbolNotDefined(n) => "symbol \"".to_string() + n + "\" not defined",
        E::CommandFailed(n, a) => "command `".to_string() + n + " " + &a.iter().map(written).collect::<Vec<_>>().join(" ") + "` failed",
        E::ForNonList(x) => "attempted to iterate over non-list `".to_string() + &written(x) + "`",
        E::RecursionDepth(x) => "recursion depth exceeded while evaluating ".to_string() + &written(x),
        E::PermissionDenied(x) => "permission denied while evaluating ".to_string() + &written(x),
        E::ProgramNotFound(n) => "program \"".to_string() + n + "\" not found",
        E::SyntaxError(s, e) => syntax(s, e),
        E::CustomError(t) => t.clone(),
    }
}
fn source(r: &mut Rng) -> String {
    let n = match r.below(8) { 0 => 0, 1 => 40 + r.below(200), _ => r.below(30) };
    let long = r.one_in(3);
    (0..n).map(|_| match r.below(14) { 13 if long => ["yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy", "éééééééééééééééééééééééééééééééééé\u{301}ééé"][r.below(2)], 0 | 1 => "\n", 2 => "\r\n", 3 => "é", 4 => "漢", 5 => "  ", 6 => "let", 7 => "=", 8 => "\"", 9 => "\\", 10 => "word", 11 => "\u{2003}", _ => "x" }).collect()
}
fn wrong(r: &mut Rng) -> String {
    const W: &[&str] = &["let", " ", "x", "=", "1", ";", "\n", "\n", ")", "(", "\"a\\q\"", "\"s\"", "\"a\nb\"", "\"\\\n\"", "99999999999999999999", "if", "then", "else", "for", "in", "->", "é", "[", "]", "{", "}", ",", "0x", "1.", "\r\n", "\t", "to", "+", "@", "ééééééééééééééééééééééééééééééééééééé", "#c\n"];
    // words with blanks between them, stopping anywhere, errors of the parser's alone
    const V: &[&str] = &["let", "x", "=", "1", ";", "\n", ")", "(", "\"é\"", "\"漢\n字\"", "if", "else", "for", "in", "->", "~>", "[", "]", "{", "}", ",", "to", "+", "==", "@", "#é\n", "|", "'", "y"];
    if r.one_in(2) { return (0..1 + r.below(12)).map(|_| format!("{} ", r.pick(V))).collect::<String>().trim_end().to_string() }
    if r.one_in(6) {
        // long lines in what is marked
        let l = |r: &mut Rng| { let n = 60 + r.below(30); format!("{}\n", ["y", "漢"][r.below(2)].repeat(n)) };
        let (a, b, c) = (l(r), l(r), l(r));
        return format!("{}\"{}{}{}\\q\"{}", r.pick(&["", "x ", "  "]), a, b, c, l(r));
    }
    (0..1 + r.below(16)).map(|_| *r.pick(W)).collect()
}
/// what a syntax error of this text may mark: a token, the end, two words without a blank between them; or what the lexer found wrong
fn marks(s: &str, e: &S) -> Option<String> {
    let (t, d) = dune::tokenize(s);
    let one = |x: &Sl| if (x.start() == s.len() && x.end() == s.len()) || t.iter().any(|k| k.range.start() == x.start() && k.range.end() == x.end()) { None } else { Some(format!("{}..{}", x.start(), x.end())) };
    match e {
        S::TokenizationErrors(v) => v.iter().find(|x| !d.contains(x)).map(|x| format!("{:?}", x)),
        S::Expected { input, .. } => one(input).filter(|_| !t.windows(2).any(|w| w.iter().all(word) && w[0].range.start() == input.start() && w[1].range.end() == input.end())),
        S::ExpectedChar { at, .. } => at.as_ref().and_then(one),
        S::NomError { at, cause, .. } => at.as_ref().and_then(one).or_else(|| cause.as_ref().and_then(|c| marks(s, c))),
        S::InternalError => None,
    }
}
fn word(t: &dune::Token) -> bool {
    use dune::TokenKind::*;
    matches!(t.kind, Symbol | Keyword | Operator | BooleanLiteral | FloatLiteral | IntegerLiteral)
}
fn r02(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let e = match r.below(10) {
        0 => {
            let v = (0..r.below(4)).map(|_| any(r, 1)).collect();
            match r.below(8) {
                0 => E::CannotApply(any(r, 2), v), 1 => E::SymbolNotDefined(text(r)), 2 => E::CommandFailed(key(r), v), 3 => E::ForNonList(any(r, 2)),
                4 => E::RecursionDepth(any(r, 2)), 5 => E::PermissionDenied(any(r, 2)), 6 => E::ProgramNotFound(text(r)), _ => E::CustomError(text(r)),
            }
        }
        1..=4 => {
            let s = wrong(r);
            note(&format!("the syntax error of {:?}", s));
            match parse_script(&s) {
                Ok(_) => return Ok(()),
                Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => {
                    if let Some(x) = marks(&s, &e) { return fail(format!("the syntax error of {:?}", s), "marks tokens, two words, the end of the text or what the lexer found wrong", format!("marks {}, of {:?}", x, e)); }
                    E::SyntaxError(s.as_str().into(), e)
                }
                Err(nom::Err::Incomplete(_)) => return Ok(()),
            }
        }
        _ => {
            let s = source(r);
            let t: detached_str::Str = s.as_str().into();
            let ends: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
            let sl = |r: &mut Rng| {
                let i = r.below(ends.len());
                let j = if r.one_in(4) { r.below(ends.len()) } else { (i + r.below(5)).min(ends.len() - 1) };
                t.get(ends[i.min(j)]..ends[i.max(j)])
            };
            let diag = |r: &mut Rng| match r.below(6) {
                0 => D::Valid, 1 | 2 => D::InvalidStringEscapes((0..r.below(4)).map(|_| sl(r)).collect()), 3 => D::InvalidNumber(sl(r)), 4 => D::IllegalChar(sl(r)), _ => D::NotTokenized(sl(r)),
            };
            let mut e = match r.below(9) {
                0..=2 => S::Expected { input: sl(r), expected: ["a symbol", "symbol", "é"][r.below(3)], found: if r.one_in(2) { Some(text(r)) } else { None }, hint: if r.one_in(2) { Some("do this") } else { None } },
                3..=5 => S::TokenizationErrors((0..r.below(4)).map(|_| diag(r)).collect()),
                6 => S::ExpectedChar { expected: *r.pick(&['x', '"', '\n', 'é', '\'']), at: if r.one_in(3) { None } else { Some(sl(r)) } },
                7 => S::InternalError,
                _ => S::NomError { kind: nom::error::ErrorKind::Many0, at: if r.one_in(3) { None } else { Some(sl(r)) }, cause: None },
            };
            for _ in 0..[0, 0, 0, 1, 2][r.below(5)] {
                e = S::NomError { kind: *r.pick(&[nom::error::ErrorKind::Eof, nom::error::ErrorKind::Alt]), at: if r.one_in(3) { None } else { Some(sl(r)) }, cause: Some(Box::new(e)) };
            }
            E::SyntaxError(t.clone(), e)
        }
    };
    let what = match &e { E::SyntaxError(s, e) => format!("the report of {:?} in the text {:?}", e, s), e => format!("the report of {:?}", e) };
    note(&what);
    let want = report(&e);
    let got = e.to_string();
    if got != want { return fail(what, format!("{:?}", want), format!("{:?}", got)); }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "R02", fixed: none, case: r02, what: "errors of every kind, from parsing and made up, their reports", threads: 0 }]
}
