//! Token printer that understands the __vx_* markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

pub struct Printer<'a> {
    pub loops: &'a BTreeMap<usize, String>,
    pub raws: &'a [String],
    pub out: String,
    indent: usize,
}

impl<'a> Printer<'a> {
    pub fn new(loops: &'a BTreeMap<usize, String>, raws: &'a [String]) -> Self {
        Printer { loops, raws, out: String::new(), indent: 0 }
    }
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        self.out.push('\n');
        for _ in 0..self.indent {
            self.out.push_str("    ");
        }
    }
    pub fn print(&mut self, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        self.seq(&toks);
    }
    fn seq(&mut self, toks: &[TokenTree]) {
        let mut i = 0;
        while i < toks.len() {
            // __vx_raw ! (N) ;
            if let TokenTree::Ident(id) = &toks[i] {
                if id == "__vx_raw" {
                    if let Some(TokenTree::Group(g)) = toks.get(i + 2) {
                        let n: usize = g.stream().to_string().trim().parse().unwrap();
                        self.nl();
                        let r = self.raws[n].clone();
                        self.out.push_str(r.trim_end());
                        self.nl();
                        i += 3;
                        if let Some(TokenTree::Punct(p)) = toks.get(i) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                        continue;
                    }
                }
            }
            // proof!{ .. }; -> proof { .. }
            if let (TokenTree::Ident(id), Some(TokenTree::Punct(_)), Some(TokenTree::Group(g))) = (&toks[i], toks.get(i + 1), toks.get(i + 2)) {
                if id == "proof" {
                    self.out.push_str("proof ");
                    self.seq(&[TokenTree::Group(g.clone())]);
                    i += 3;
                    if let Some(TokenTree::Punct(_)) = toks.get(i) {
                        i += 1;
                    }
                    continue;
                }
            }
            match &toks[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut skip = 0;
                            if let Some(TokenTree::Ident(id)) = inner.first() {
                                if id == "__vx_loop" {
                                    if let Some(TokenTree::Group(a)) = inner.get(2) {
                                        let n: usize = a.stream().to_string().trim().parse().unwrap();
                                        if let Some(inv) = self.loops.get(&n) {
                                            self.nl();
                                            self.out.push_str(inv.trim_end());
                                            self.nl();
                                        }
                                        skip = 4;
                                    }
                                }
                            }
                            self.out.push('{');
                            self.indent += 1;
                            if !inner.is_empty() {
                                self.nl();
                            }
                            self.seq(&inner[skip.min(inner.len())..]);
                            self.indent -= 1;
                            self.nl();
                            self.out.push_str("} ");
                        }
                        Delimiter::Parenthesis => {
                            self.out.push('(');
                            self.seq(&inner);
                            self.out.push_str(") ");
                        }
                        Delimiter::Bracket => {
                            self.out.push('[');
                            self.seq(&inner);
                            self.out.push_str("] ");
                        }
                        Delimiter::None => self.seq(&inner),
                    }
                }
                TokenTree::Punct(p) => {
                    self.out.push(p.as_char());
                    if p.as_char() == ';' {
                        self.nl();
                    } else if p.as_char() == '\'' {
                    } else if p.spacing() == Spacing::Alone {
                        self.out.push(' ');
                    }
                }
                t => {
                    self.out.push_str(&t.to_string());
                    self.out.push(' ');
                }
            }
            i += 1;
        }
    }
}
