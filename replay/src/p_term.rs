//! H01: removing terminal escapes, and highlighting a line, against their definition.
use super::p_lex::{fixed as lex_fixed, gen_text};
use super::util::*;

/// from each escape character through the next m, or to the end
fn strip(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(k) = rest.find('\x1b') {
        out.push_str(&rest[..k]);
        rest = match rest[k..].find('m') {
            Some(j) => &rest[k + j + 1..],
            None => "",
        };
    }
    out + rest
}
const BITS: &[&str] = &["\x1b", "m", "\x1b[m", "\x1b[0m", "\x1b[38;5;9m", "a", "é", "[", ";", "0", " ", "\n", "mm", "\x1b\x1b", "日", "M", "1"];
const WORDS: &[&str] = &["None", "echo", "exit", "clear", "cd", "rm", "True", "x", "\"a\\q b\\u{d800}c\"", "1.", "2.5", "`", "é", "@", "->", ">>>", "|", "to", "if", "let", "+", "(", "]", "# c", " ", "\n", "\"", "\\", "\"\\"];
fn text(seed: u64, ix: u64) -> (String, &'static str) {
    if ix < lex_fixed() {
        return (gen_text(seed, ix), "line");
    }
    let mut r = Rng::new(seed, ix);
    match ix % 4 {
        0 | 1 => {
            let mut s = String::new();
            let n = r.range(0, 12);
            for _ in 0..n {
                s.push_str(r.pick(BITS));
            }
            (s, "escapes")
        }
        2 => {
            let mut s = String::new();
            let n = r.range(1, 9);
            for _ in 0..n {
                s.push_str(r.pick(WORDS));
            }
            (s, "line")
        }
        _ => (gen_text(seed, ix), "line"),
    }
}
fn case(seed: u64, ix: u64) -> Res {
    let (s, kind) = text(seed, ix);
    note(format!("{:?}", s));
    let (got, want) = (crate::strip_ansi_escapes(&s), strip(&s));
    if got != want {
        return fail(format!("removing the escapes of {:?}", s), format!("{:?}", want), format!("{:?}", got));
    }
    let shown = crate::syntax_highlight(&s);
    if !s.contains('\x1b') {
        let back = strip(&shown);
        if back != s {
            return fail(format!("highlighting {:?}", s), format!("{:?} without its escapes", s), format!("{:?} ({:?})", back, shown));
        }
    }
    Ok(())
}
fn fixed() -> u64 {
    lex_fixed()
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "H01", fixed, case, what: "texts with and without escapes stripped, and lines highlighted and stripped again, against the definition", threads: 0 }]
}
