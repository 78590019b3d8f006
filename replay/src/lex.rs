//! Reference lexer: the documented lexical grammar, one character at a time.
use dune::TokenKind;

pub fn is_sym(c: char) -> bool {
    c.is_ascii() && (c.is_ascii_alphanumeric() || "_+-.~\\/?&<>$%#^:".contains(c))
}
fn lit(s: &[char], p: &str) -> bool {
    let p: Vec<char> = p.chars().collect();
    s.len() >= p.len() && s[..p.len()] == p[..]
}
/// recognised only if no symbol character follows
fn word(s: &[char], p: &str) -> Option<usize> {
    let n = p.chars().count();
    if lit(s, p) && !s.get(n).map_or(false, |c| is_sym(*c)) { Some(n) } else { None }
}
fn first_word(s: &[char], ps: &[&str]) -> Option<usize> {
    ps.iter().find_map(|p| word(s, p))
}
fn first_lit(s: &[char], ps: &[&str]) -> Option<usize> {
    ps.iter().find_map(|p| if lit(s, p) { Some(p.chars().count()) } else { None })
}
fn run(s: &[char], f: impl Fn(char) -> bool) -> usize {
    s.iter().take_while(|c| f(**c)).count()
}
/// (characters, is the escape bad)
pub fn escape(s: &[char]) -> (usize, bool) {
    match s.get(1) {
        None => (1, true),
        Some(c) if "\"\\bfnrt".contains(*c) => (2, false),
        Some('u') if s.get(2) == Some(&'{') => {
            let h: String = s[3..].iter().take(5).take_while(|c| c.is_ascii_hexdigit()).collect();
            if h.is_empty() {
                return (2, true);
            }
            let n = 3 + h.len();
            if char::from_u32(u32::from_str_radix(&h, 16).unwrap()).is_none() {
                return (n, true);
            }
            if s.get(n) == Some(&'}') { (n + 1, false) } else { (n, true) }
        }
        Some(_) => (2, true),
    }
}
/// a string literal: characters, number of bad escapes
pub fn string(s: &[char]) -> Option<(usize, usize)> {
    if s.first() != Some(&'"') {
        return None;
    }
    let (mut i, mut bad) = (1, 0);
    loop {
        match s.get(i) {
            None => return Some((i, bad)),
            Some('"') => return Some((i + 1, bad)),
            Some('\\') => {
                let (n, b) = escape(&s[i..]);
                i += n;
                bad += b as usize;
            }
            Some(_) => i += 1,
        }
    }
}
fn number(s: &[char]) -> Option<(usize, TokenKind, bool)> {
    let mut i = 0;
    if s.first() == Some(&'-') {
        i = 1;
    }
    let d = if s.get(i) == Some(&'0') { 1 } else { run(&s[i.min(s.len())..], |c| c.is_ascii_digit()) };
    if d == 0 {
        return None;
    }
    i += d;
    if s.get(i) != Some(&'.') {
        return Some((i, TokenKind::IntegerLiteral, false));
    }
    i += 1;
    let f = run(&s[i..], |c| c.is_ascii_digit());
    Some((i + f, TokenKind::FloatLiteral, f == 0))
}
/// the token at the start of a non-empty text: characters, kind, flagged
pub fn token(s: &[char]) -> (usize, TokenKind, bool) {
    if let Some(n) = first_word(s, &["to", "==", "!=", ">=", "<=", "&&", "||", "//", "<<", ">>", ">>>"]) {
        return (n, TokenKind::Operator, false);
    }
    if let Some(n) = first_lit(s, &["(", ")", "[", "]", "{", "}", "'", ",", ";", "="]).or_else(|| first_word(s, &["->", "~>"])) {
        return (n, TokenKind::Punctuation, false);
    }
    if let Some(n) = first_word(s, &["None", "then", "else", "let", "for", "if", "in"]) {
        return (n, TokenKind::Keyword, false);
    }
    if let Some(n) = first_word(s, &["<", ">", "+", "-", "*", "%", "|"]).or_else(|| first_lit(s, &["@", "!"])) {
        return (n, TokenKind::Operator, false);
    }
    if let Some(n) = first_word(s, &["True", "False"]) {
        return (n, TokenKind::BooleanLiteral, false);
    }
    if s[0] == '#' {
        return (run(s, |c| c != '\n' && c != '\r'), TokenKind::Comment, false);
    }
    if let Some((n, bad)) = string(s) {
        return (n, TokenKind::StringLiteral, bad > 0);
    }
    if let Some(t) = number(s) {
        return t;
    }
    let n = run(s, is_sym);
    if n > 0 {
        return (n, TokenKind::Symbol, false);
    }
    let n = run(s, |c| c.is_ascii_whitespace());
    if n > 0 {
        return (n, TokenKind::Whitespace, false);
    }
    (1, TokenKind::Symbol, true)
}
