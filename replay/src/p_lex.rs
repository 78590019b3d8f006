use super::lex;
use super::util::*;
use dune::{tokenize, Diagnostic, TokenKind};

const ALPHA: &[char] = &['"', '\\', 'u', '{', '}', 'd', '8', '0', '5', '.', '-', '>', '=', '~', 't', 'o', ' ', '\n', '#', 'é', '!', '|', '&', '@', '\r', '😀', '<'];
const FRAGS: &[&str] = &[
    "to", "==", "!=", ">=", "<=", "&&", "||", "//", "<<", ">>", ">>>", "(", ")", "[", "]", "{", "}", "'", ",", ";", "=", "->", "~>",
    "None", "then", "else", "let", "for", "if", "in", "<", ">", "+", "-", "*", "%", "|", "@", "!", "True", "False", "#", "# note\n", "# é\r",
    "\"", "\"\"", "\\", "\\n", "\\\"", "\\\\", "\\u{", "\\u{41}", "\\u{d800}", "\\u{10ffff}", "\\u{fffff}", "\\u{0}", "\\u{12345}", "\\u{123456}", "\\u", "\\x", "\\é", "\\'", "\\b", "\\f", "\\r", "\\t", "\\a", "\\0", "\\/", "\\ ",
    "0", "00", "1", "42", "-7", "0.", "0.5", "1.5", "-0", "-.5", "1.", "1..2", "999999999999999999999", "1e5", "0x1f", "05",
    "none", "NONE", "true", "false", "TRUE", "If", "IN", "Let", "To", "FOR", "and", "or", "not", "do", "while", "fn", "return", "abc", "x", "foo-bar", "a.b", "$PATH", "~/x", "?", "a:b", "^", "_", "tox", "forx", "Nonee", "Trueish", "letx", "inn", "-x", "<x", "==x", "->x", "a->b",
    " ", "  ", "\t", "\n", "\r\n", "\x0b", "\x0c", "\u{a0}", "\u{2003}", "\0", "\x1b", "\x7f", "é", "ß", "日本", "😀", "\u{301}", "\u{feff}", "`", "$", "\\é\"",
];
pub fn gen_text(seed: u64, ix: u64) -> String {
    let k = ALPHA.len() as u64;
    // every text of up to 3 characters over the alphabet
    if ix < fixed() {
        let mut ix = ix;
        let mut n = 0;
        let mut size = 1;
        while ix >= size {
            ix -= size;
            size *= k;
            n += 1;
        }
        let mut s = String::new();
        for _ in 0..n {
            s.push(ALPHA[(ix % k) as usize]);
            ix /= k;
        }
        return s;
    }
    let mut r = Rng::new(seed, ix);
    let mut s = String::new();
    let mode = r.below(4);
    let top = if r.one_in(20) { 60 } else { 9 };
    let n = r.range(1, top);
    if mode == 0 {
        s.push('"');
    }
    for _ in 0..n {
        match mode {
            0 | 1 => s.push_str(r.pick(FRAGS)),
            2 => s.push(*r.pick(ALPHA)),
            _ => match r.below(4) {
                0 => s.push((r.below(128) as u8) as char),
                1 => s.push(char::from_u32(r.below(0x11000) as u32 * 16 % 0x10ffff).unwrap_or('�')),
                _ => s.push_str(r.pick(FRAGS)),
            },
        }
    }
    s
}
pub fn fixed() -> u64 {
    let k = ALPHA.len() as u64;
    1 + k + k * k + k * k * k
}
fn flagged(d: &Diagnostic) -> bool {
    d != &Diagnostic::Valid
}

/// T01: the tokens tile the text
fn t01(seed: u64, ix: u64) -> Res {
    let s = gen_text(seed, ix);
    note(format!("tokenize({:?})", s));
    let (t, d) = tokenize(&s);
    let what = format!("tokenize({:?})", s);
    if d.len() != t.len() {
        return fail(what, format!("{} diagnostics", t.len()), format!("{} diagnostics", d.len()));
    }
    let mut pos = 0;
    let mut all = String::new();
    for x in &t {
        if x.range.start() != pos || x.range.end() <= pos {
            return fail(what, format!("next token from byte {}", pos), format!("{}..{}", x.range.start(), x.range.end()));
        }
        if !s.is_char_boundary(x.range.end()) {
            return fail(what, "token boundary on a character boundary", x.range.end());
        }
        pos = x.range.end();
        all.push_str(x.range.to_str(&s));
    }
    if pos != s.len() || all != s {
        return fail(what, format!("all {} bytes covered", s.len()), format!("{} bytes covered", pos));
    }
    Ok(())
}
fn per_token(s: &str, mut f: impl FnMut(&[char], usize, TokenKind, bool) -> Option<String>) -> Res {
    note(format!("tokenize({:?})", s));
    let (t, d) = tokenize(s);
    for (x, y) in t.iter().zip(d.iter()) {
        if x.range.start() >= x.range.end() || x.range.end() > s.len() || !s.is_char_boundary(x.range.start()) || !s.is_char_boundary(x.range.end()) {
            return Ok(()); // T01's business
        }
        let rest: Vec<char> = s[x.range.start()..].chars().collect();
        let n = s[x.range.start()..x.range.end()].chars().count();
        if let Some(want) = f(&rest, n, x.kind, flagged(y)) {
            return fail(
                format!("tokenize({:?}) at byte {}", s, x.range.start()),
                want,
                format!("{:?} of {} characters{}", x.kind, n, if flagged(y) { ", flagged" } else { "" }),
            );
        }
    }
    Ok(())
}
fn say(n: usize, k: TokenKind, bad: bool) -> String {
    format!("{:?} of {} characters{}", k, n, if bad { ", flagged" } else { "" })
}
fn t02(seed: u64, ix: u64) -> Res {
    let s = gen_text(seed, ix);
    per_token(&s, |rest, n, k, bad| {
        let (wn, wk, wbad) = lex::token(rest);
        if wk == TokenKind::StringLiteral {
            if k == wk { None } else { Some(say(wn, wk, wbad)) }
        } else if (n, k, bad) != (wn, wk, wbad) {
            Some(say(wn, wk, wbad))
        } else {
            None
        }
    })
}
fn t03(seed: u64, ix: u64) -> Res {
    let s = gen_text(seed, ix);
    per_token(&s, |rest, n, k, bad| {
        let (wn, wk, wbad) = lex::token(rest);
        if wk == TokenKind::StringLiteral && (n, k, bad) != (wn, wk, wbad) { Some(say(wn, wk, wbad)) } else { None }
    })
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "T01", fixed, case: t01, what: "tokens tile the text: every text of up to 3 characters over 27 awkward ones, then random texts", threads: 0 },
        Prop { id: "T02", fixed, case: t02, what: "each token against the reference lexer: every text of up to 3 characters over 27 awkward ones, then random texts", threads: 0 },
        Prop { id: "T03", fixed, case: t03, what: "string tokens against the reference lexer: every text of up to 3 characters over 27 awkward ones, then random texts", threads: 0 },
    ]
}
