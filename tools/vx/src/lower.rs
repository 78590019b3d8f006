//! The fixed list of rewrites (DESIGN.md, "What the extraction changes").
use crate::unit::Anchor;
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Index {
    /// free functions of the unit's source files
    pub fns: BTreeMap<String, ItemFn>,
    /// "Type::name" methods
    pub methods: BTreeMap<String, ImplItemFn>,
    pub listed: BTreeSet<String>,
}

pub struct Ctx<'a> {
    pub ix: &'a Index,
    pub opts: &'a BTreeMap<String, String>,
    pub self_ty: Option<String>,
    pub used: BTreeSet<String>,
    pub errors: Vec<String>,
    pub inlined: BTreeSet<String>,
    n: BTreeMap<String, usize>,
    parsers: Vec<(String, Expr)>,
    /// names bound by a let in scope: not the functions of that name
    shadow: Vec<String>,
    macros: BTreeMap<String, TokenStream>,
    inline_depth: usize,
}

const COMBINATORS: &[&str] = &[
    "alt", "map", "pair", "preceded", "terminated", "separated_pair", "tuple", "opt", "many0", "many1",
    "separated_list0", "fold_many_m_n",
];
const SOURCES: &[&str] = &[
    "chars", "iter", "into_iter", "windows", "lines", "keys", "values", "into_keys", "into_values", "bytes",
    "char_indices", "split", "split_whitespace", "split_terminator",
];
const CLOSURE_ADAPTERS: &[&str] = &["map", "filter", "take_while", "skip_while", "filter_map"];
const PLAIN_ADAPTERS: &[&str] = &["rev", "enumerate", "skip", "take", "zip", "cloned", "copied", "chain"];
const TERMINALS: &[&str] = &["count", "sum", "collect", "next", "all", "any", "last", "next_back", "max", "min", "fold", "product"];

/// only bindings
fn plain_pat(p: &Pat) -> bool {
    match p {
        Pat::Ident(i) => i.subpat.is_none() && !i.ident.to_string().starts_with(char::is_uppercase),
        Pat::Wild(_) => true,
        Pat::Tuple(t) => t.elems.iter().all(plain_pat),
        Pat::Paren(t) => plain_pat(&t.pat),
        _ => false,
    }
}
fn path_name(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if p.qself.is_none() {
            return Some(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"));
        }
    }
    None
}

pub fn returns_fn(sig: &Signature) -> bool {
    if let ReturnType::Type(_, t) = &sig.output {
        if let Type::ImplTrait(t) = &**t {
            return t.bounds.iter().any(|b| {
                if let TypeParamBound::Trait(t) = b {
                    let n = t.path.segments.last().unwrap().ident.to_string();
                    n == "Fn" || n == "FnMut" || n == "FnOnce"
                } else {
                    false
                }
            });
        }
    }
    false
}

fn has_fn_param(sig: &Signature) -> bool {
    sig.inputs.iter().any(|a| {
        if let FnArg::Typed(t) = a {
            let s = t.ty.to_token_stream().to_string();
            s.contains("impl") && s.contains("Fn")
        } else {
            false
        }
    })
}

/// true when the expression contains `return` (outside closures)
/// the format string and the arguments of a printing macro
struct F(LitStr, Vec<Expr>);
impl parse::Parse for F {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let l: LitStr = i.parse()?;
        let mut v = vec![];
        while i.peek(Token![,]) {
            i.parse::<Token![,]>()?;
            if i.is_empty() {
                break;
            }
            v.push(i.parse()?);
        }
        Ok(F(l, v))
    }
}
/// where `write!` writes, and what
struct W(Expr, F);
impl parse::Parse for W {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let f: Expr = i.parse()?;
        if i.is_empty() {
            return Ok(W(f, parse2(quote!(""))?));
        }
        i.parse::<Token![,]>()?;
        Ok(W(f, i.parse()?))
    }
}
/// whether evaluating these tokens may do more than compute a value
fn has_effects(t: &TokenStream) -> bool {
    t.clone().into_iter().any(|t| match t {
        proc_macro2::TokenTree::Punct(p) => p.as_char() == '?',
        proc_macro2::TokenTree::Ident(i) => ["eval", "eval_mut", "vx_w", "env", "return", "break", "continue"].iter().any(|n| i == n),
        proc_macro2::TokenTree::Group(g) => has_effects(&g.stream()),
        _ => false,
    })
}
struct FindRet(bool, bool);
impl<'a> syn::visit::Visit<'a> for FindRet {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.1 = true;
        syn::visit::visit_expr_try(self, t)
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn ret_try(b: &Block) -> (bool, bool) {
    let mut f = FindRet(false, false);
    syn::visit::Visit::visit_block(&mut f, b);
    (f.0, f.1)
}

impl<'a> Ctx<'a> {
    pub fn new(ix: &'a Index, opts: &'a BTreeMap<String, String>, self_ty: Option<String>) -> Self {
        Ctx {
            ix,
            opts,
            self_ty,
            used: Default::default(),
            errors: vec![],
            inlined: Default::default(),
            n: Default::default(),
            parsers: vec![],
            shadow: vec![],
            macros: Default::default(),
            inline_depth: 0,
        }
    }
    fn fresh(&mut self, s: &str) -> Ident {
        let n = self.n.entry(s.to_string()).or_insert(0);
        *n += 1;
        format_ident!("vx_{}{}", s, *n)
    }
    fn mark(&mut self, s: &str) {
        self.used.insert(s.to_string());
    }
    fn opt(&self, s: &str) -> bool {
        self.opts.contains_key(s)
    }

    // ---------- parsers (nom) ----------
    fn is_parser_expr(&self, e: &Expr) -> bool {
        match e {
            Expr::Call(c) => match path_name(&c.func) {
                Some(n) => COMBINATORS.contains(&n.as_str()) || self.curried(&n).is_some(),
                None => false,
            },
            Expr::Path(_) => match path_name(e) {
                Some(n) => {
                    !self.shadow.contains(&n) && self.ix.fns.get(&n).map(|f| f.sig.output.to_token_stream().to_string().contains("Result")).unwrap_or(false)
                        || self.parsers.iter().any(|p| p.0 == n)
                }
                None => false,
            },
            _ => false,
        }
    }
    fn curried(&self, n: &str) -> Option<ItemFn> {
        self.ix.fns.get(n).filter(|f| returns_fn(&f.sig)).cloned()
    }

    /// parser expression applied to an input expression
    fn app(&mut self, p: &Expr, input: TokenStream) -> TokenStream {
        match p {
            Expr::Paren(x) => return self.app(&x.expr, input),
            Expr::Path(_) => {
                let n = path_name(p).unwrap();
                if let Some((_, e)) = self.parsers.iter().rev().find(|x| x.0 == n).cloned() {
                    return self.app(&e, input);
                }
                let mut f = p.clone();
                self.visit_expr_mut(&mut f);
                return quote!(#f(#input));
            }
            Expr::Closure(c) => {
                // |input| expr
                let pat = &c.inputs[0];
                let mut b = (*c.body).clone();
                self.visit_expr_mut(&mut b);
                return quote!({ let #pat = #input; #b });
            }
            Expr::Call(c) => {
                let name = path_name(&c.func).unwrap_or_default();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if COMBINATORS.contains(&name.as_str()) && !self.ix.fns.contains_key(&name) {
                    self.mark(&format!("nom::{}", name));
                    return self.combinator(&name, &args, input);
                }
                if let Some(f) = self.curried(&name) {
                    if has_fn_param(&f.sig) {
                        // a parser taking a parser: inline it with the argument substituted
                        self.mark("inline higher-order parser");
                        return self.inline_curried(&f, &args, input);
                    }
                    self.mark("uncurry");
                    let fi = format_ident!("{}", name);
                    let a: Vec<TokenStream> = args
                        .into_iter()
                        .map(|mut e| {
                            self.visit_expr_mut(&mut e);
                            e.to_token_stream()
                        })
                        .collect();
                    return quote!(#fi(#(#a,)* #input));
                }
            }
            _ => {}
        }
        self.errors.push(format!("unsupported parser expression: {}", p.to_token_stream()));
        quote!(vx_unsupported())
    }

    fn inline_curried(&mut self, f: &ItemFn, args: &[Expr], input: TokenStream) -> TokenStream {
        let np = self.parsers.len();
        let mut lets = vec![];
        for (p, a) in f.sig.inputs.iter().zip(args) {
            if let FnArg::Typed(t) = p {
                let ts = t.ty.to_token_stream().to_string();
                if let Pat::Ident(pi) = &*t.pat {
                    if ts.contains("Fn") && ts.contains("impl") {
                        self.parsers.push((pi.ident.to_string(), a.clone()));
                    } else {
                        let id = &pi.ident;
                        let mut e = a.clone();
                        self.visit_expr_mut(&mut e);
                        lets.push(quote!(let #id = #e;));
                    }
                }
            }
        }
        // body: a single closure expression
        let r = match f.block.stmts.last() {
            Some(Stmt::Expr(Expr::Closure(c), None)) if f.block.stmts.len() == 1 => {
                let pat = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let body = match &*c.body {
                    Expr::Block(b) => b.block.clone(),
                    e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] },
                };
                match self.desugar_try(&body) {
                    Some(mut b) => {
                        self.visit_block_mut(&mut b);
                        let stmts = &b.stmts;
                        quote!({ #(#lets)* let #pat = #input; #(#stmts)* })
                    }
                    None => {
                        self.errors.push(format!("cannot inline {}", f.sig.ident));
                        quote!(vx_unsupported())
                    }
                }
            }
            _ => {
                self.errors.push(format!("cannot inline {}", f.sig.ident));
                quote!(vx_unsupported())
            }
        };
        self.parsers.truncate(np);
        r
    }

    /// `{ let P = E?; ...; tail }` as nested matches, so that the block can be used as a value
    fn desugar_try(&mut self, b: &Block) -> Option<Block> {
        let (ret, tr) = ret_try(b);
        if ret {
            return None;
        }
        if !tr {
            return Some(b.clone());
        }
        let mut acc: Option<TokenStream> = None;
        for s in b.stmts.iter().rev() {
            match (s, acc.take()) {
                (Stmt::Expr(e, None), None) => {
                    if let Expr::Try(t) = e {
                        let _ = t;
                        return None;
                    }
                    let mut f = FindRet(false, false);
                    syn::visit::Visit::visit_expr(&mut f, e);
                    if f.1 {
                        return None;
                    }
                    acc = Some(quote!(#e));
                }
                (Stmt::Local(l), Some(rest)) => {
                    let init = l.init.as_ref()?;
                    if init.diverge.is_some() {
                        return None;
                    }
                    let pat = &l.pat;
                    let pat2 = match pat {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    if let Expr::Try(t) = &*init.expr {
                        let e = &t.expr;
                        let id = self.fresh("e");
                        acc = Some(quote!(match #e { Ok(#pat2) => { #rest } Err(#id) => Err(#id) }));
                    } else {
                        let mut f = FindRet(false, false);
                        syn::visit::Visit::visit_expr(&mut f, &init.expr);
                        if f.1 {
                            return None;
                        }
                        acc = Some(quote!(#l #rest));
                    }
                }
                (Stmt::Expr(Expr::Try(t), Some(_)), Some(rest)) => {
                    let e = &t.expr;
                    let id = self.fresh("e");
                    acc = Some(quote!(match #e { Ok(_) => { #rest } Err(#id) => Err(#id) }));
                }
                (s, Some(rest)) => {
                    let bb = Block { brace_token: Default::default(), stmts: vec![s.clone()] };
                    if ret_try(&bb).1 {
                        return None;
                    }
                    acc = Some(quote!(#s #rest));
                }
                _ => return None,
            }
        }
        let a = acc?;
        parse2::<Block>(quote!({ #a })).ok()
    }

    fn combinator(&mut self, name: &str, args: &[Expr], input: TokenStream) -> TokenStream {
        let iv = self.fresh("i");
        let body = match name {
            "alt" => {
                let ps: Vec<Expr> = match &args[0] {
                    Expr::Tuple(t) => t.elems.iter().cloned().collect(),
                    e => vec![e.clone()],
                };
                let mut acc = quote!(Err(nom::Err::Error(vx_err_at(&#iv))));
                for p in ps.iter().rev() {
                    let a = self.app(p, quote!(#iv));
                    let r = self.fresh("r");
                    acc = quote!(match #a { Err(nom::Err::Error(_)) => { #acc } #r => #r });
                }
                acc
            }
            "map" => {
                let a = self.app(&args[0], quote!(#iv));
                let o = self.fresh("o");
                let rest = self.fresh("rest");
                let e = self.fresh("e");
                let v = self.apply_closure(&args[1], quote!(#o));
                quote!(match #a { Ok((#rest, #o)) => Ok((#rest, #v)), Err(#e) => Err(#e) })
            }
            "opt" => {
                let a = self.app(&args[0], quote!(#iv));
                quote!(match #a { Ok((vx_r, vx_o)) => Ok((vx_r, Some(vx_o))), Err(nom::Err::Error(_)) => Ok((#iv, None)), Err(vx_e) => Err(vx_e) })
            }
            "pair" | "preceded" | "terminated" | "separated_pair" | "tuple" => {
                let ps: Vec<Expr> = if name == "tuple" {
                    match &args[0] {
                        Expr::Tuple(t) => t.elems.iter().cloned().collect(),
                        e => vec![e.clone()],
                    }
                } else {
                    args.to_vec()
                };
                let outs: Vec<Ident> = ps.iter().map(|_| self.fresh("o")).collect();
                let ins: Vec<Ident> = ps.iter().map(|_| self.fresh("i")).collect();
                let last = ins.last().unwrap().clone();
                let val = match name {
                    "preceded" => { let o = &outs[1]; quote!(#o) }
                    "terminated" => { let o = &outs[0]; quote!(#o) }
                    "separated_pair" => { let (a, b) = (&outs[0], &outs[2]); quote!((#a, #b)) }
                    _ => quote!((#(#outs),*)),
                };
                let mut acc = quote!(Ok((#last, #val)));
                for k in (0..ps.len()).rev() {
                    let inp = if k == 0 { quote!(#iv) } else { let i = &ins[k - 1]; quote!(#i) };
                    let a = self.app(&ps[k], inp);
                    let (i, o) = (&ins[k], &outs[k]);
                    let e = self.fresh("e");
                    acc = quote!(match #a { Ok((#i, #o)) => { #acc } Err(#e) => Err(#e) });
                }
                acc
            }
            "many0" | "many1" => {
                let acc = self.fresh("acc");
                let cur = self.fresh("cur");
                let err = self.fresh("err");
                let a = self.app(&args[0], quote!(#cur));
                let lp = quote!(loop {
                    match #a {
                        Err(nom::Err::Error(_)) => { break; }
                        Err(vx_e) => { #err = Some(vx_e); break; }
                        Ok((vx_i1, vx_o)) => {
                            if vx_i1.input_len() == #cur.input_len() { #err = Some(nom::Err::Error(vx_err_at(&#cur))); break; }
                            #cur = vx_i1;
                            #acc.push(vx_o);
                        }
                    }
                });
                let fin = quote!(match #err { Some(vx_e) => Err(vx_e), None => Ok((#cur, #acc)) });
                if name == "many0" {
                    quote!(let mut #acc = Vec::new(); let mut #cur = #iv; let mut #err = None; #lp #fin)
                } else {
                    let a1 = self.app(&args[0], quote!(#iv));
                    quote!(match #a1 {
                        Err(nom::Err::Error(_)) => Err(nom::Err::Error(vx_err_at(&#iv))),
                        Err(vx_e) => Err(vx_e),
                        Ok((vx_i0, vx_o0)) => {
                            let mut #acc = Vec::new(); #acc.push(vx_o0); let mut #cur = vx_i0; let mut #err = None;
                            #lp #fin
                        }
                    })
                }
            }
            "separated_list0" => {
                let acc = self.fresh("acc");
                let cur = self.fresh("cur");
                let err = self.fresh("err");
                let a0 = self.app(&args[1], quote!(#iv));
                let sep = self.app(&args[0], quote!(#cur));
                let a1 = self.app(&args[1], quote!(vx_i1));
                quote!(match #a0 {
                    Err(nom::Err::Error(_)) => Ok((#iv, Vec::new())),
                    Err(vx_e) => Err(vx_e),
                    Ok((vx_i0, vx_o0)) => {
                        let mut #acc = Vec::new(); #acc.push(vx_o0); let mut #cur = vx_i0; let mut #err = None;
                        loop {
                            match #sep {
                                Err(nom::Err::Error(_)) => { break; }
                                Err(vx_e) => { #err = Some(vx_e); break; }
                                Ok((vx_i1, _)) => {
                                    if vx_i1.input_len() == #cur.input_len() { #err = Some(nom::Err::Error(vx_err_at(&#cur))); break; }
                                    match #a1 {
                                        Err(nom::Err::Error(_)) => { break; }
                                        Err(vx_e) => { #err = Some(vx_e); break; }
                                        Ok((vx_i2, vx_o)) => { #cur = vx_i2; #acc.push(vx_o); }
                                    }
                                }
                            }
                        }
                        match #err { Some(vx_e) => Err(vx_e), None => Ok((#cur, #acc)) }
                    }
                })
            }
            "fold_many_m_n" => {
                let acc = self.fresh("acc");
                let cur = self.fresh("cur");
                let err = self.fresh("err");
                let cnt = self.fresh("count");
                let (mn, mx) = (&args[0], &args[1]);
                let a = self.app(&args[2], quote!(#cur));
                let init = self.apply_closure0(&args[3]);
                let fold = match &args[4] {
                    Expr::Closure(c) if c.inputs.len() == 2 => {
                        let (p, q) = (&c.inputs[0], &c.inputs[1]);
                        let mut b = (*c.body).clone();
                        self.visit_expr_mut(&mut b);
                        quote!({ let #p = #acc; let #q = vx_value; #b })
                    }
                    e => quote!(#e(#acc, vx_value)),
                };
                quote!(
                    let mut #acc = #init; let mut #cur = #iv; let mut #err = None; let mut #cnt: usize = 0;
                    while #cnt < #mx {
                        match #a {
                            Ok((vx_tail, vx_value)) => {
                                if vx_tail.input_len() == #cur.input_len() { #err = Some(nom::Err::Error(vx_err_at(&#cur))); break; }
                                #acc = #fold;
                                #cur = vx_tail;
                            }
                            Err(nom::Err::Error(_)) => { if #cnt < #mn { #err = Some(nom::Err::Error(vx_err_at(&#cur))); } break; }
                            Err(vx_e) => { #err = Some(vx_e); break; }
                        }
                        #cnt = #cnt + 1;
                    }
                    match #err { Some(vx_e) => Err(vx_e), None => Ok((#cur, #acc)) }
                )
            }
            _ => quote!(vx_unsupported()),
        };
        quote!({ let #iv = #input; #body })
    }

    fn apply_closure0(&mut self, c: &Expr) -> TokenStream {
        match c {
            Expr::Closure(c) => {
                let mut b = (*c.body).clone();
                self.visit_expr_mut(&mut b);
                quote!(#b)
            }
            e => quote!(#e()),
        }
    }
    /// inline a one-argument closure (or call a function path) on a value
    fn apply_closure(&mut self, c: &Expr, v: TokenStream) -> TokenStream {
        match c {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let pat = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let mut b = (*c.body).clone();
                let bb = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(b.clone(), None)] };
                let (ret, tr) = ret_try(&bb);
                if ret || tr {
                    self.errors.push("closure with ? or return inlined".into());
                }
                self.visit_expr_mut(&mut b);
                match &pat {
                    Pat::Wild(_) => quote!(#b),
                    Pat::Reference(r) => {
                        let p = &r.pat;
                        quote!({ let #p = *#v; #b })
                    }
                    p => quote!({ let #p = #v; #b }),
                }
            }
            Expr::Path(_) if matches!(path_name(c).as_deref(), Some("ToString::to_string" | "str::to_string")) => quote!(#v.vx_to_string()),
            Expr::Path(_) => {
                let mut f = c.clone();
                self.visit_expr_mut(&mut f);
                quote!(#f(#v))
            }
            e => {
                self.errors.push(format!("unsupported closure {}", e.to_token_stream()));
                quote!(vx_unsupported())
            }
        }
    }

    // ---------- iterator chains ----------
    fn unroll<'b>(e: &'b Expr) -> (&'b Expr, Vec<&'b ExprMethodCall>) {
        let mut ms = vec![];
        let mut cur = e;
        while let Expr::MethodCall(m) = cur {
            ms.push(m);
            cur = &m.receiver;
        }
        ms.reverse();
        (cur, ms)
    }

    fn try_chain(&mut self, e: &Expr) -> Option<TokenStream> {
        let (base, ms) = Self::unroll(e);
        let is_range = match base {
            Expr::Paren(p) => matches!(*p.expr, Expr::Range(_)),
            _ => false,
        };
        let src = if is_range {
            None
        } else {
            Some(ms.iter().position(|m| SOURCES.contains(&m.method.to_string().as_str()))?)
        };
        let start = src.map(|k| k + 1).unwrap_or(0);
        // the chain must contain at least the source
        let mut end = ms.len();
        for (k, m) in ms.iter().enumerate().skip(start) {
            let n = m.method.to_string();
            if TERMINALS.contains(&n.as_str()) {
                end = k + 1;
                break;
            }
            if !CLOSURE_ADAPTERS.contains(&n.as_str()) && !PLAIN_ADAPTERS.contains(&n.as_str()) {
                end = k;
                break;
            }
        }
        if is_range && end == 0 {
            return None;
        }
        if end != ms.len() {
            // rebuild: lower the prefix, keep the rest as ordinary calls
            let inner = ms[end - 1];
            let t = self.try_chain(&Expr::MethodCall(inner.clone()))?;
            let mut full = e.clone();
            fn replace(e: &mut Expr, depth: usize, t: &TokenStream) {
                if depth == 0 {
                    *e = Expr::Verbatim(t.clone());
                } else if let Expr::MethodCall(m) = e {
                    replace(&mut m.receiver, depth - 1, t)
                }
            }
            let hole = format_ident!("vx_hole_chain");
            replace(&mut full, ms.len() - end, &quote!(#hole));
            // visit the outer calls with a placeholder, then substitute
            let mut v: Expr = parse2(full.to_token_stream()).ok()?;
            self.visit_expr_mut(&mut v);
            return Some(subst_ident(v.to_token_stream(), "vx_hole_chain", &t));
        }
        self.mark("iterator chain");
        // source
        let mut pre = quote!();
        let mut cur = if is_range {
            if let Expr::Paren(p) = base {
                let mut r = (*p.expr).clone();
                if let Expr::Range(rr) = &mut r {
                    let incl = matches!(rr.limits, RangeLimits::Closed(_));
                    let (mut a, mut b) = ((**rr.start.as_ref()?).clone(), (**rr.end.as_ref()?).clone());
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    if incl { quote!(vx_range_incl(#a, #b)) } else if self.opt("usizerange") { quote!(vx_urange(#a, #b)) } else { quote!(vx_range(#a, #b)) }
                } else {
                    return None;
                }
            } else {
                return None;
            }
        } else {
            let m = ms[src.unwrap()];
            let mut recv = (*m.receiver).clone();
            let temp = matches!(recv, Expr::Try(_)) && m.method == "iter";
            self.visit_expr_mut(&mut recv);
            let recv = if temp {
                // the temporary outlives the loop
                let t = self.fresh("t");
                pre = quote!(let #t = #recv;);
                quote!(#t)
            } else {
                quote!(#recv)
            };
            let args: Vec<TokenStream> = m
                .args
                .iter()
                .map(|a| {
                    let mut a = a.clone();
                    self.visit_expr_mut(&mut a);
                    quote!(#a)
                })
                .collect();
            let id = format_ident!("vx_{}", m.method);
            quote!(#recv.#id(#(#args),*))
        };
        let steps: Vec<&ExprMethodCall> = ms[start..].to_vec();
        let mut k = 0;
        while k < steps.len() {
            let m = steps[k];
            let n = m.method.to_string();
            match n.as_str() {
                "map" if k + 1 < steps.len() && steps[k + 1].method == "collect" && is_result_collect(steps[k + 1]) => {
                    let (it, out, er) = (self.fresh("it"), self.fresh("out"), self.fresh("er"));
                    let b = self.closure_block(&m.args[0], quote!(vx_x));
                    let st = self.loop_stmt(quote!(loop {
                        match #it.next() {
                            None => { break; }
                            Some(vx_x) => {
                                match #b {
                                    Ok(vx_v) => { #out.vx_push(vx_v); }
                                    Err(vx_e) => { #er = Some(vx_e); break; }
                                }
                            }
                        }
                    }));
                    let ty = result_collect_ty(steps[k + 1]);
                    cur = quote!({ let mut #it = #cur; let mut #out: #ty = vx_new_collection(); let mut #er = None; #st match #er { Some(vx_e) => Err(vx_e), None => Ok(#out) } });
                    k += 1;
                }
                "map" => {
                    let (it, out) = (self.fresh("it"), self.fresh("out"));
                    let b = self.closure_block(&m.args[0], quote!(vx_x));
                    let st = self.loop_stmt(quote!(loop { match #it.next() { None => { break; } Some(vx_x) => { #out.push(#b); } } }));
                    cur = quote!({ let mut #it = #cur; let mut #out = Vec::new(); #st vx_iter_of(#out) });
                }
                "filter" => {
                    let (it, out) = (self.fresh("it"), self.fresh("out"));
                    let b = self.closure_block(&m.args[0], quote!((&vx_x)));
                    let st = self.loop_stmt(quote!(loop { match #it.next() { None => { break; } Some(vx_x) => { if #b { #out.push(vx_x); } } } }));
                    cur = quote!({ let mut #it = #cur; let mut #out = Vec::new(); #st vx_iter_of(#out) });
                }
                "take_while" => {
                    let (it, out) = (self.fresh("it"), self.fresh("out"));
                    let b = self.closure_block(&m.args[0], quote!((&vx_x)));
                    // fuse the common `take_while(p).map(len_utf8).sum()` and `take_while(p).count()`
                    let rest: Vec<String> = steps[k + 1..].iter().map(|s| s.method.to_string()).collect();
                    if rest == ["count"] {
                        let st = self.loop_stmt(quote!(loop { match #it.next() { None => { break; } Some(vx_x) => { if #b { #out = #out + 1; } else { break; } } } }));
                        cur = quote!({ let mut #it = #cur; let mut #out: usize = 0; #st #out });
                        k += 1;
                    } else if rest == ["map", "sum"] {
                        let f = self.closure_block(&steps[k + 1].args[0], quote!(vx_x));
                        let st = self.loop_stmt(quote!(loop { match #it.next() { None => { break; } Some(vx_x) => { if #b { #out = #out + #f; } else { break; } } } }));
                        cur = quote!({ let mut #it = #cur; let mut #out: usize = 0; #st #out });
                        k += 2;
                    } else {
                        let st = self.loop_stmt(quote!(loop { match #it.next() { None => { break; } Some(vx_x) => { if #b { #out.push(vx_x); } else { break; } } } }));
                        cur = quote!({ let mut #it = #cur; let mut #out = Vec::new(); #st vx_iter_of(#out) });
                    }
                }
                "all" | "any" => {
                    let (it, out) = (self.fresh("it"), self.fresh("out"));
                    let b = self.closure_block(&m.args[0], quote!(vx_x));
                    let (init, cond, set) = if n == "all" { (quote!(true), quote!(!(#b)), quote!(false)) } else { (quote!(false), quote!(#b), quote!(true)) };
                    let st = self.loop_stmt(quote!(loop { match #it.next() { None => { break; } Some(vx_x) => { if #cond { #out = #set; break; } } } }));
                    cur = quote!({ let mut #it = #cur; let mut #out: bool = #init; #st #out });
                }
                "next" if k == 0 => cur = quote!(#cur.vx_first()),
                "collect" => {
                    let tf = &m.turbofish;
                    let ty = tf.as_ref().map(|t| t.args.to_token_stream()).unwrap_or(quote!(_));
                    cur = quote!(vx_collect::<_, #ty>(#cur));
                }
                _ if PLAIN_ADAPTERS.contains(&n.as_str()) || TERMINALS.contains(&n.as_str()) => {
                    let args: Vec<TokenStream> = m
                        .args
                        .iter()
                        .map(|a| {
                            let mut a = a.clone();
                            self.visit_expr_mut(&mut a);
                            quote!(#a)
                        })
                        .collect();
                    let id = format_ident!("vx_{}", m.method);
                    cur = quote!(#cur.#id(#(#args),*));
                }
                _ => {
                    self.errors.push(format!("unsupported adapter {}", n));
                    return None;
                }
            }
            k += 1;
        }
        Some(if pre.is_empty() { cur } else { quote!({ #pre #cur }) })
    }
    fn loop_stmt(&mut self, l: TokenStream) -> TokenStream {
        quote!(#l)
    }
    fn closure_block(&mut self, c: &Expr, v: TokenStream) -> TokenStream {
        // a closure body with `?` inside a Result-collecting map: Ok((n, x?)) style
        if let Expr::Closure(cl) = c {
            let body = match &*cl.body {
                Expr::Block(b) => b.block.clone(),
                e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] },
            };
            let (_, tr) = ret_try(&body);
            if tr {
                if let Some(b) = self.hoist_try(&body) {
                    let pat = &cl.inputs[0];
                    let mut b = b;
                    self.visit_block_mut(&mut b);
                    return quote!({ let #pat = #v; #b });
                }
            }
        }
        self.apply_closure(c, v)
    }
    /// `Ok((n, E?))` -> `match E { Ok(t) => Ok((n, t)), Err(e) => Err(e) }` for a single `?`
    fn hoist_try(&mut self, b: &Block) -> Option<Block> {
        if let Some(d) = self.desugar_try(b) {
            return Some(d);
        }
        if b.stmts.len() != 1 {
            return None;
        }
        struct H(Option<Expr>, usize);
        impl VisitMut for H {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Try(t) = e {
                    self.1 += 1;
                    self.0 = Some((*t.expr).clone());
                    *e = parse_quote!(vx_t);
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut s = b.clone();
        let mut h = H(None, 0);
        h.visit_block_mut(&mut s);
        if h.1 != 1 {
            return None;
        }
        let e = h.0?;
        Some(parse_quote!({ match #e { Ok(vx_t) => #s, Err(vx_e) => Err(vx_e) } }))
    }

    // ---------- macros ----------
    /// the text a format string makes: its pieces and its displayed arguments, one after the other
    fn fmt_text(&mut self, s: &str, v: &[Expr]) -> Option<Expr> {
        self.fmt_onto(None, s, v)
    }
    /// the same behind what has been written so far
    fn fmt_onto(&mut self, start: Option<Expr>, s: &str, v: &[Expr]) -> Option<Expr> {
        let mut named: BTreeMap<String, Expr> = BTreeMap::new();
        let mut placed: Vec<Expr> = vec![];
        let mut lets: Vec<Stmt> = vec![];
        for a in v {
            let (name, x) = match a {
                Expr::Assign(a) => (Some(path_name(&a.left)?), (*a.right).clone()),
                x => (None, x.clone()),
            };
            let mut y = x.clone();
            self.visit_expr_mut(&mut y);
            // arguments that do something do it once, in their order
            if has_effects(&x.to_token_stream()) {
                let id = self.fresh("f");
                lets.push(parse_quote!(let #id = #y;));
                y = parse_quote!(#id);
            }
            match name {
                Some(n) => { named.insert(n, y); }
                None => placed.push(y),
            }
        }
        let mut used = vec![false; placed.len()];
        let mut parts: Vec<Expr> = vec![];
        let mut lit = String::new();
        let mut it = s.chars().peekable();
        let mut k = 0;
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => { it.next(); lit.push('{'); }
                '}' if it.peek() == Some(&'}') => { it.next(); lit.push('}'); }
                '{' => {
                    let mut name = String::new();
                    loop {
                        match it.next()? {
                            '}' => break,
                            c => name.push(c),
                        }
                    }
                    if !lit.is_empty() {
                        let words = if start.is_some() { crate::extract::pieces(&lit) } else { vec![lit.clone()] };
                        for w in words {
                            parts.push(parse_quote!(#w.vx_to_string()));
                        }
                        lit.clear();
                    }
                    let (name, how) = match name.split_once(':') { Some((n, h)) => (n.to_string(), h.to_string()), None => (name, String::new()) };
                    let x: Expr = if name.is_empty() {
                        let x = placed.get(k)?.clone();
                        used[k] = true;
                        k += 1;
                        x
                    } else if let Ok(n) = name.parse::<usize>() {
                        let x = placed.get(n)?.clone();
                        used[n] = true;
                        x
                    } else if let Some(x) = named.get(&name) {
                        x.clone()
                    } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        let x = format_ident!("{}", name);
                        parse_quote!(#x)
                    } else {
                        return None;
                    };
                    parts.push(match how.as_str() {
                        "" => parse_quote!((#x).vx_to_string()),
                        "?" => parse_quote!((#x).vx_to_debug()),
                        // at the right of so many columns
                        h if h.strip_prefix('>').is_some_and(|n| n.parse::<usize>().is_ok() && !n.starts_with('0')) => {
                            let n = h[1..].parse::<usize>().ok()?;
                            parse_quote!((#x).vx_right(#n))
                        }
                        // a width: only texts have it
                        h => {
                            let n: Expr = match h.strip_suffix('$') {
                                Some(n) if n.chars().all(|c| c.is_alphanumeric() || c == '_') && n.parse::<usize>().is_err() => {
                                    if let Some(x) = named.get(n) { x.clone() } else { let n = format_ident!("{}", n); parse_quote!(#n) }
                                }
                                _ => {
                                    let n = h.parse::<usize>().ok()?;
                                    if h.starts_with('0') { return None; }
                                    parse_quote!(#n)
                                }
                            };
                            parse_quote!((#x).vx_padded(#n))
                        }
                    });
                }
                '}' => return None,
                c => lit.push(c),
            }
        }
        if start.is_some() {
            for w in crate::extract::pieces(&lit) {
                parts.push(parse_quote!(#w.vx_to_string()));
            }
        } else if !lit.is_empty() || parts.is_empty() {
            parts.push(parse_quote!(#lit.vx_to_string()));
        }
        if used.iter().any(|u| !u) {
            return None;
        }
        let mut e = match start {
            Some(e) => e,
            None => parts.remove(0),
        };
        for x in parts {
            e = parse_quote!(vx_cat(#e, #x));
        }
        Some(if lets.is_empty() { e } else { parse_quote!({ #(#lets)* #e }) })
    }
    fn lower_macro(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let toks = self.expand_local(m.tokens.clone());
        match name.as_str() {
            "matches" => {
                self.mark("matches!");
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = parse2(toks).ok()?;
                let mut ex: Expr = match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                };
                self.visit_expr_mut(&mut ex);
                Some(ex)
            }
            "format" => {
                // format!("{}", x) and format!("{x}") are x.to_string()
                if self.opt("fmtshow") {
                    if let Ok(F(l, mut v)) = parse2::<F>(toks.clone()) {
                        let s = l.value();
                        if s == "{}" && v.len() == 1 {
                            let mut x = v.remove(0);
                            self.visit_expr_mut(&mut x);
                            return Some(parse_quote!((#x).vx_to_string()));
                        }
                        if self.opt("fmtcat") && s.contains('{') {
                            if let Some(e) = self.fmt_text(&s, &v) {
                                self.mark("format! -> concatenation");
                                return Some(e);
                            }
                        }
                        if v.is_empty() && s.len() > 2 && s.starts_with('{') && s.ends_with('}') && s[1..s.len() - 1].chars().all(|c| c.is_alphanumeric() || c == '_') {
                            let x = format_ident!("{}", &s[1..s.len() - 1]);
                            return Some(parse_quote!((#x).vx_to_string()));
                        }
                    }
                }
                self.mark("format! (result uninterpreted)");
                if has_effects(&toks) {
                    return None;
                }
                // the arguments are pure displays; keep only the first `name.to_string()`-free form
                Some(parse_quote!(vx_format()))
            }
            "write" | "writeln" if self.opt("fmtwrite") => {
                let W(f, F(l, v)) = parse2::<W>(toks.clone()).ok()?;
                let s = format!("{}{}", l.value(), if name == "writeln" { "\n" } else { "" });
                if self.opt("fmtacc") {
                    let t = self.fmt_onto(Some(parse_quote!(vx_written(#f))), &s, &v)?;
                    self.mark("write! -> vx_write");
                    return Some(parse_quote!({ let vx_t = #t; vx_write(#f, vx_t) }));
                }
                let t = self.fmt_text(&s, &v)?;
                self.mark("write! -> vx_write");
                Some(parse_quote!(vx_write(#f, #t)))
            }
            "row" if self.opt("fmtwrite") => {
                use syn::parse::Parser;
                let a = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(toks.clone()).ok()?;
                let f = format_ident!("vx_row{}", a.len());
                let v: Vec<Expr> = a.into_iter().map(|mut x| { self.visit_expr_mut(&mut x); x }).collect();
                self.mark("row! -> function");
                Some(parse_quote!(#f(#((#v).vx_to_string()),*)))
            }
            "println" | "print" if self.opt("printout") => {
                let F(l, v) = parse2::<F>(toks.clone()).ok()?;
                let s = format!("{}{}", l.value(), if name == "println" { "\n" } else { "" });
                let t = self.fmt_text(&s, &v)?;
                self.mark("print! -> vx_print");
                Some(parse_quote!(vx_print(#t, vx_w)))
            }
            "eprintln" | "eprint" if self.opt("errout") => {
                let F(l, v) = parse2::<F>(toks.clone()).ok()?;
                let s = format!("{}{}", l.value(), if name == "eprintln" { "\n" } else { "" });
                let t = self.fmt_text(&s, &v)?;
                self.mark("eprint! -> vx_eprint");
                Some(parse_quote!(vx_eprint(#t, vx_w)))
            }
            "println" | "print" | "eprintln" | "eprint" => {
                if has_effects(&toks) {
                    return None;
                }
                self.mark("print macros dropped");
                Some(parse_quote!(()))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(vx_unreachable())),
            "assert" | "debug_assert" => {
                self.mark("assert! becomes an obligation");
                struct A(Expr);
                impl parse::Parse for A {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e: Expr = i.parse()?;
                        let _: TokenStream = i.parse()?;
                        Ok(A(e))
                    }
                }
                let A(mut e) = parse2(toks).ok()?;
                self.visit_expr_mut(&mut e);
                Some(parse_quote!(vx_assert(#e)))
            }
            "vec" => {
                // vec![a, b] / vec![x; n]
                struct V(Vec<Expr>);
                impl parse::Parse for V {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated(i)?;
                        Ok(V(p.into_iter().collect()))
                    }
                }
                let V(mut es) = parse2(toks).ok()?;
                for e in &mut es {
                    self.visit_expr_mut(e);
                }
                if es.is_empty() {
                    Some(parse_quote!(Vec::new()))
                } else {
                    Some(parse_quote!({ let mut vx_v = Vec::new(); #(vx_v.push(#es);)* vx_v }))
                }
            }
            "b_tree_map" => {
                struct KV(Vec<(Expr, Expr)>);
                impl parse::Parse for KV {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let mut v = vec![];
                        while !i.is_empty() {
                            let k: Expr = i.parse()?;
                            i.parse::<Token![=>]>()?;
                            let x: Expr = i.parse()?;
                            let _ = i.parse::<Option<Token![,]>>()?;
                            v.push((k, x));
                        }
                        Ok(KV(v))
                    }
                }
                let KV(kvs) = parse2(toks).ok()?;
                self.mark("b_tree_map!");
                let mut ins = vec![];
                for (mut k, mut v) in kvs {
                    self.visit_expr_mut(&mut k);
                    self.visit_expr_mut(&mut v);
                    ins.push(quote!(vx_m.insert(#k, #v);));
                }
                Some(parse_quote!({ let mut vx_m = BTreeMap::new(); #(#ins)* vx_m }))
            }
            _ => None,
        }
    }

    fn expand_local(&self, ts: TokenStream) -> TokenStream {
        if self.macros.is_empty() {
            return ts;
        }
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            if let TokenTree::Ident(id) = &v[i] {
                if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(_))) = (v.get(i + 1), v.get(i + 2)) {
                    if p.as_char() == '!' {
                        if let Some(t) = self.macros.get(&id.to_string()) {
                            out.extend(t.clone());
                            i += 3;
                            continue;
                        }
                    }
                }
            }
            if let TokenTree::Group(g) = &v[i] {
                let mut ng = proc_macro2::Group::new(g.delimiter(), self.expand_local(g.stream()));
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
            } else {
                out.extend([v[i].clone()]);
            }
            i += 1;
        }
        out
    }

    fn collect_local_macros(&mut self, b: &Block) {
        for s in &b.stmts {
            if let Stmt::Item(Item::Macro(m)) = s {
                if let Some(id) = &m.ident {
                    // () => { body }
                    let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    if v.len() >= 4 {
                        if let (TokenTree::Group(a), TokenTree::Group(b)) = (&v[0], &v[3]) {
                            if a.stream().is_empty() {
                                self.macros.insert(id.to_string(), b.stream());
                            }
                        }
                    }
                }
            }
        }
    }

    fn str_lit_pat(p: &Pat) -> Option<Vec<Option<LitStr>>> {
        match p {
            Pat::Lit(l) => match &l.lit {
                Lit::Str(s) => Some(vec![Some(s.clone())]),
                _ => None,
            },
            Pat::Or(o) => {
                let mut v = vec![];
                for c in &o.cases {
                    v.extend(Self::str_lit_pat(c)?);
                }
                Some(v)
            }
            Pat::Wild(_) => Some(vec![None]),
            Pat::Paren(p) => Self::str_lit_pat(&p.pat),
            _ => None,
        }
    }

    /// string literals inside a pattern -> bindings compared by a guard
    fn nested_str_pats(&mut self, p: &mut Pat, conds: &mut Vec<TokenStream>) {
        if let Some(v) = Self::str_lit_pat(p) {
            if !v.is_empty() && v.iter().all(|x| x.is_some()) {
                let id = self.fresh("s");
                let lits: Vec<LitStr> = v.into_iter().flatten().collect();
                conds.push(quote!((#(vx_str_eq(#id, #lits))||*)));
                *p = parse_quote!(#id);
                return;
            }
        }
        match p {
            Pat::Ident(i) => {
                if let Some((_, sub)) = &i.subpat {
                    if let Some(v) = Self::str_lit_pat(sub) {
                        if v.iter().all(|x| x.is_some()) {
                            let id = i.ident.clone();
                            let lits: Vec<LitStr> = v.into_iter().flatten().collect();
                            conds.push(quote!((#(vx_str_eq(#id, #lits))||*)));
                            i.subpat = None;
                        }
                    }
                }
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|x| self.nested_str_pats(x, conds)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|x| self.nested_str_pats(x, conds)),
            Pat::Paren(t) => self.nested_str_pats(&mut t.pat, conds),
            Pat::Reference(t) => self.nested_str_pats(&mut t.pat, conds),
            _ => {}
        }
    }
    /// `&p` inside a pattern -> a binding dereferenced by a let
    fn ref_pats(&mut self, p: &mut Pat, lets: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) if plain_pat(&r.pat) => {
                self.mark("& patterns become dereferences");
                let id = self.fresh("d");
                let inner = (*r.pat).clone();
                lets.push(parse_quote!(let #inner = *#id;));
                *p = parse_quote!(#id);
            }
            // `&Kind(x)`: what it binds, dereferenced
            Pat::Reference(r) if matches!(&*r.pat, Pat::TupleStruct(t) if t.elems.iter().all(|x| matches!(x, Pat::Wild(_) | Pat::Rest(_)) || matches!(x, Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none()))) => {
                self.mark("& patterns become dereferences");
                let inner = (*r.pat).clone();
                if let Pat::TupleStruct(t) = &inner {
                    for x in &t.elems {
                        if let Pat::Ident(i) = x {
                            let n = &i.ident;
                            lets.push(parse_quote!(let #n = *#n;));
                        }
                    }
                }
                *p = inner;
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|x| self.ref_pats(x, lets)),
            Pat::Paren(t) => self.ref_pats(&mut t.pat, lets),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|x| self.ref_pats(x, lets)),
            _ => {}
        }
    }
    fn match_ref_pats(&mut self, m: &mut ExprMatch) {
        for a in m.arms.iter_mut() {
            let mut lets = vec![];
            self.ref_pats(&mut a.pat, &mut lets);
            if !lets.is_empty() {
                if let Some((_, g)) = &mut a.guard {
                    let g0 = (**g).clone();
                    **g = parse_quote!({ #(#lets)* #g0 });
                }
                let b0 = (*a.body).clone();
                *a.body = parse_quote!({ #(#lets)* #b0 });
            }
        }
    }
    fn guard_str_pats(&mut self, m: &mut ExprMatch) {
        for a in m.arms.iter_mut() {
            let mut conds = vec![];
            self.nested_str_pats(&mut a.pat, &mut conds);
            if !conds.is_empty() {
                self.mark("string literals in patterns become guards");
                let g: Expr = match &a.guard {
                    Some((_, g)) => parse_quote!(#(#conds)&&* && (#g)),
                    None => parse_quote!(#(#conds)&&*),
                };
                a.guard = Some((Default::default(), Box::new(g)));
            }
        }
    }

    /// match on string literals -> if chain
    fn lower_str_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        let has_lit = m.arms.iter().any(|a| match Self::str_lit_pat(&a.pat) {
            Some(v) => v.iter().any(|x| x.is_some()),
            None => false,
        });
        if !has_lit {
            return None;
        }
        self.mark("match on string literals");
        let s = self.fresh("s");
        let mut acc = quote!({ vx_unreachable() });
        for a in m.arms.iter().rev() {
            let body = &a.body;
            if let Some(v) = Self::str_lit_pat(&a.pat) {
                if v.iter().any(|x| x.is_none()) {
                    acc = match &a.guard {
                        Some((_, g)) => quote!({ if #g { #body } else #acc }),
                        None => quote!({ #body }),
                    };
                } else {
                    let lits: Vec<LitStr> = v.into_iter().flatten().collect();
                    let mut cond = quote!(#(vx_str_eq(#s, #lits))||*);
                    if let Some((_, g)) = &a.guard {
                        cond = quote!((#cond) && (#g));
                    }
                    acc = quote!({ if #cond { #body } else #acc });
                }
            } else if let Pat::Ident(i) = &a.pat {
                let id = &i.ident;
                acc = match &a.guard {
                    Some((_, g)) => quote!({ let #id = #s; if #g { #body } else #acc }),
                    None => quote!({ let #id = #s; #body }),
                };
            } else {
                return None;
            }
        }
        let e = &m.expr;
        // a temporary the scrutinee borrows from lives as long as the match
        let hold = match &**e {
            Expr::MethodCall(mc) if mc.args.is_empty() && !matches!(&*mc.receiver, Expr::Path(_) | Expr::Field(_)) && (mc.method == "as_str" || mc.method == "as_ref") => Some((&mc.receiver, &mc.method)),
            _ => None,
        };
        let mut r: Expr = match hold {
            Some((x, f)) => {
                let h = self.fresh("h");
                parse2(quote!({ let #h = #x; let #s = #h.#f(); #acc })).ok()?
            }
            None => parse2(quote!({ let #s = #e; #acc })).ok()?,
        };
        self.visit_expr_mut(&mut r);
        Some(r)
    }

    // ---------- inlining of unlisted helpers ----------
    fn try_inline(&mut self, c: &ExprCall, ctx: InlineCtx) -> Option<TokenStream> {
        let n = path_name(&c.func)?;
        let n = n.trim_start_matches("super::").to_string();
        let short = n.strip_prefix("Self::").unwrap_or(&n).to_string();
        let mut self_as: Option<String> = None;
        let (sig, block) = if let Some(f) = self.ix.fns.get(&n) {
            if self.ix.listed.contains(&n) || self.opts.get("name") == Some(&n) {
                return None;
            }
            (f.sig.clone(), (*f.block).clone())
        } else {
            let key = if n.starts_with("Self::") { format!("{}::{}", self.self_ty.as_ref()?, short) } else { n.clone() };
            let f = self.ix.methods.get(&key)?;
            if self.ix.listed.contains(&key) {
                return None;
            }
            self_as = key.split("::").next().map(|s| s.to_string());
            (f.sig.clone(), f.block.clone())
        };
        if sig.inputs.iter().any(|p| matches!(p, FnArg::Receiver(_))) {
            return None;
        }
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        self.inline_body(&n, sig, block, self_as, args, ctx)
    }

    /// `self.helper(args)`
    fn try_inline_method(&mut self, m: &ExprMethodCall, ctx: InlineCtx) -> Option<TokenStream> {
        match &*m.receiver {
            Expr::Path(p) if p.path.is_ident("self") => {}
            _ => return None,
        }
        let t = self.self_ty.clone()?;
        let key = format!("{}::{}", t, m.method);
        let f = self.ix.methods.get(&key)?;
        if self.ix.listed.contains(&key) {
            return None;
        }
        let (mut sig, block) = (f.sig.clone(), f.block.clone());
        match sig.inputs.first()? {
            FnArg::Receiver(r) if r.mutability.is_none() || r.reference.is_some() => {}
            _ => return None,
        }
        sig.inputs = sig.inputs.into_iter().skip(1).collect();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        self.inline_body(&key, sig, block, Some(t), args, ctx)
    }

    fn inline_body(&mut self, n: &str, sig: Signature, block: Block, self_as: Option<String>, args: Vec<Expr>, ctx: InlineCtx) -> Option<TokenStream> {
        if self.inline_depth > 4 || returns_fn(&sig) {
            return None;
        }
        let mut block = block;
        let (mut ret, mut tr) = ret_try(&block);
        if ret && !matches!(ctx, InlineCtx::Tail) {
            if let Some(st) = crate::early::unreturn(&block.stmts) {
                block = parse_quote!({ #(#st)* });
                ret = false;
            }
        }
        if tr && !ret && matches!(ctx, InlineCtx::Value) {
            if let Some(b) = self.desugar_try(&block) {
                block = b;
                tr = false;
            }
        }
        let ok = match ctx {
            InlineCtx::Value => !ret && !tr,
            InlineCtx::Tail => true,
            InlineCtx::TryOperand => !ret,
        };
        if !ok {
            return None;
        }
        let mut lets = vec![];
        let mut args = args;
        for a in &mut args {
            self.visit_expr_mut(a);
        }
        let generics: Vec<String> = sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let tmps: Vec<Ident> = args.iter().map(|_| self.fresh("a")).collect();
        for (t, a) in tmps.iter().zip(&args) {
            // naming the type lets the argument be coerced, and a mutable reference be lent again
            let ty = match sig.inputs.iter().nth(lets.len()) {
                Some(FnArg::Typed(pt)) => {
                    let words = pt.ty.to_token_stream().to_string();
                    let named = words.contains("impl ") || words.contains("dyn ") || words.contains("Self") || generics.iter().any(|g| words.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == g));
                    match &*pt.ty {
                        Type::Reference(r) if !named && (r.mutability.is_some() || matches!(&*r.elem, Type::Slice(_))) => {
                            let mut r = r.clone();
                            r.lifetime = None;
                            let mut t = Type::Reference(r);
                            self.visit_type_mut(&mut t);
                            Some(t)
                        }
                        _ => None,
                    }
                }
                _ => None,
            };
            match ty {
                Some(ty) => lets.push(quote!(let #t: #ty = #a;)),
                None => lets.push(quote!(let #t = #a;)),
            }
        }
        for (p, t) in sig.inputs.iter().zip(&tmps) {
            match p {
                FnArg::Typed(pt) => {
                    let pat = &pt.pat;
                    lets.push(quote!(let #pat = #t;));
                }
                FnArg::Receiver(_) => return None,
            }
        }
        self.inline_depth += 1;
        self.inlined.insert(n.to_string());
        self.mark("inline new helper");
        let mut b = block;
        if let Some(t) = self_as {
            let t = Ident::new(&t, proc_macro2::Span::call_site());
            if let Ok(x) = parse2::<Block>(subst_ident(b.to_token_stream(), "Self", &quote!(#t))) {
                b = x;
            }
        }
        self.visit_block_mut(&mut b);
        self.inline_depth -= 1;
        let st = &b.stmts;
        Some(quote!({ #(#lets)* #(#st)* }))
    }

    pub fn lower_fn_body(&mut self, b: &mut Block) {
        // tail-position helper calls may be inlined even if they return early
        self.inline_tail(b);
        self.visit_block_mut(b);
    }
    fn inline_tail(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.inline_tail_expr(e);
        }
    }
    fn inline_tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => {
                if let Some(t) = self.try_inline(&c.clone(), InlineCtx::Tail) {
                    *e = Expr::Verbatim(t);
                }
            }
            Expr::Match(m) => {
                for a in &mut m.arms {
                    self.inline_tail_expr(&mut a.body);
                }
            }
            Expr::If(i) => {
                self.inline_tail(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.inline_tail_expr(x);
                }
            }
            Expr::Block(b) => self.inline_tail(&mut b.block),
            _ => {}
        }
    }
}

#[derive(Clone, Copy)]
enum InlineCtx {
    Value,
    Tail,
    TryOperand,
}

fn is_result_collect(m: &ExprMethodCall) -> bool {
    m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().contains("Result")).unwrap_or(false)
}
fn result_collect_ty(m: &ExprMethodCall) -> TokenStream {
    if let Some(t) = &m.turbofish {
        if let Some(GenericArgument::Type(Type::Path(p))) = t.args.first() {
            if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                if let Some(GenericArgument::Type(t)) = a.args.first() {
                    return t.to_token_stream();
                }
            }
        }
    }
    quote!(_)
}

pub fn subst_ident(ts: TokenStream, name: &str, with: &TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Ident(ref i) if i == name => out.extend(with.clone()),
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst_ident(g.stream(), name, with));
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
            }
            t => out.extend([t]),
        }
    }
    out
}

impl<'a> VisitMut for Ctx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.collect_local_macros(b);
        let np = self.parsers.len();
        let ns = self.shadow.len();
        let mut stmts = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Static(st)) => {
                    // an immutable static with a const initialiser: evaluate it in place
                    self.mark("static initialiser evaluated in place");
                    let (id, ty, e) = (&st.ident, &st.ty, &st.expr);
                    stmts.push(parse_quote!(let #id: #ty = #e;));
                }
                Stmt::Item(Item::Const(st)) => {
                    let (id, ty, e) = (&st.ident, &st.ty, &st.expr);
                    stmts.push(parse_quote!(let #id: #ty = #e;));
                }
                Stmt::Item(_) => {} // nested fns are hoisted, macros expanded, uses dropped
                Stmt::Local(l) => {
                    if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                        if self.is_parser_expr(&init.expr) {
                            self.parsers.push((pi.ident.to_string(), (*init.expr).clone()));
                            continue;
                        }
                    }
                    struct Names<'b>(&'b mut Vec<String>);
                    impl<'b> VisitMut for Names<'b> {
                        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                            self.0.push(p.ident.to_string());
                        }
                    }
                    Names(&mut self.shadow).visit_pat_mut(&mut l.pat.clone());
                    stmts.push(Stmt::Local(l));
                }
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    let out = self.opt("printout") && (n == "println" || n == "print") || self.opt("errout") && (n == "eprintln" || n == "eprint");
                    if !out && ["println", "print", "eprintln", "eprint"].contains(&n.as_str()) {
                        self.mark("print macros dropped");
                        continue;
                    }
                    let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    stmts.push(Stmt::Expr(e, m.semi_token));
                }
                s => stmts.push(s),
            }
        }
        b.stmts = stmts;
        // visit in order so that parser lets are seen before their uses
        for s in &mut b.stmts {
            self.visit_stmt_mut(s);
        }
        self.parsers.truncate(np);
        self.shadow.truncate(ns);
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // nested verbatim: already lowered
        if let Expr::Verbatim(_) = e {
            return;
        }
        if let Expr::Macro(m) = e {
            if let Some(n) = self.lower_macro(&m.mac.clone()) {
                *e = n;
                return;
            } else {
                self.errors.push(format!("unsupported macro {}", m.mac.path.to_token_stream()));
                return;
            }
        }
        // *LOCK.write().unwrap() = x
        if self.opt("printout") {
            if let Expr::Assign(a) = &*e {
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*a.left {
                    if let Expr::MethodCall(u) = &**expr {
                        if let Expr::MethodCall(w) = &*u.receiver {
                            if u.method == "unwrap" && w.method == "write" && w.args.is_empty() {
                                let (lock, mut x) = (w.receiver.clone(), (*a.right).clone());
                                self.visit_expr_mut(&mut x);
                                self.mark("*lock.write().unwrap() = x -> store");
                                *e = parse_quote!((#lock).vx_store(#x));
                                return;
                            }
                        }
                    }
                }
            }
        }
        if let Expr::Match(m) = e {
            if let Some(n) = self.lower_str_match(&m.clone()) {
                *e = n;
                return;
            }
        }
        if let Expr::Match(m) = e {
            self.guard_str_pats(m);
            self.match_ref_pats(m);
        }
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &mut *i.cond {
                let mut lets = vec![];
                self.ref_pats(&mut l.pat, &mut lets);
                i.then_branch.stmts.splice(0..0, lets);
            }
        }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                self.mark("while let as loop and match");
                let (pat, ex, b, label) = (&l.pat, &l.expr, &w.body, &w.label);
                *e = parse_quote!(#label loop { match #ex { #pat => #b _ => { break; } } });
            }
        }
        if self.opt("vindex") {
            if let Expr::Index(ix) = e {
                if !matches!(&*ix.index, Expr::Range(_)) {
                    let (mut b, mut k) = ((*ix.expr).clone(), (*ix.index).clone());
                    self.visit_expr_mut(&mut b);
                    self.visit_expr_mut(&mut k);
                    self.mark("index as a call");
                    *e = parse_quote!((*vx_at(&#b, #k)));
                    return;
                }
            }
        }
        // parser application
        if let Expr::Call(c) = e {
            if let Expr::Call(_) = &*c.func {
                if c.args.len() == 1 {
                    let p = (*c.func).clone();
                    let mut inp = c.args[0].clone();
                    self.visit_expr_mut(&mut inp);
                    let t = self.app(&p, quote!(#inp));
                    *e = Expr::Verbatim(t);
                    return;
                }
            }
            if let Some(n) = path_name(&c.func) {
                if self.parsers.iter().any(|p| p.0 == n) && c.args.len() == 1 {
                    let p = (*c.func).clone();
                    let mut inp = c.args[0].clone();
                    self.visit_expr_mut(&mut inp);
                    let t = self.app(&p, quote!(#inp));
                    *e = Expr::Verbatim(t);
                    return;
                }
                if ["u32::from_str_radix", "char::try_from"].contains(&n.as_str()) {
                    let id = format_ident!("vx_{}", n.replace("::", "_"));
                    let mut a: Vec<Expr> = c.args.iter().cloned().collect();
                    for x in &mut a {
                        self.visit_expr_mut(x);
                    }
                    *e = parse_quote!(#id(#(#a),*));
                    return;
                }
                if n == "std::ptr::eq" {
                    let (mut a, mut b) = (c.args[0].clone(), c.args[1].clone());
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    *e = parse_quote!(vx_ptr_eq(#a, #b));
                    return;
                }
                if let Some(t) = self.try_inline(&c.clone(), InlineCtx::Value) {
                    *e = Expr::Verbatim(t);
                    return;
                }
                if n == "String::from_utf8_lossy" && c.args.len() == 1 {
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = parse_quote!(vx_from_utf8_lossy(#a));
                    return;
                }
                if n == "String::from" && c.args.len() == 1 {
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = parse_quote!(vx_string_from(#a));
                    return;
                }
                if (n == "Int::from" || n == "i64::from") && c.args.len() == 1 {
                    let mut a = c.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    *e = parse_quote!(vx_int_from(#a));
                    return;
                }
                if n == "Box::new" && c.args.len() == 1 {
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
        }
        if let Expr::Try(t) = e {
            if let Expr::Call(c) = &*t.expr {
                if let Some(x) = self.try_inline(&c.clone(), InlineCtx::TryOperand) {
                    *e = Expr::Verbatim(quote!((#x)?));
                    return;
                }
            }
            if let Expr::MethodCall(m) = &*t.expr {
                if let Some(x) = self.try_inline_method(&m.clone(), InlineCtx::TryOperand) {
                    *e = Expr::Verbatim(quote!((#x)?));
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(t) = self.try_inline_method(&m.clone(), InlineCtx::Value) {
                *e = Expr::Verbatim(t);
                return;
            }
        }
        if let Expr::MethodCall(_) = e {
            if let Some(t) = self.try_chain(&e.clone()) {
                *e = Expr::Verbatim(t);
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            // Option / Result adapters with closures
            let lowered: Option<TokenStream> = match (n.as_str(), m.args.len()) {
                ("filter", 1) => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let b = self.apply_closure(&m.args[0].clone(), quote!((&vx_x)));
                    Some(quote!(match #r { Some(vx_x) => if #b { Some(vx_x) } else { None }, None => None }))
                }
                ("ok_or", 1) => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let mut a = m.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    Some(quote!(match #r { Some(vx_x) => Ok(vx_x), None => Err(#a) }))
                }
                ("or_else", 1) | ("unwrap_or_else", 1) | ("ok_or_else", 1) => {
                    if let Expr::Closure(c) = &m.args[0].clone() {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let b = if c.inputs.is_empty() {
                            self.apply_closure0(&m.args[0].clone())
                        } else {
                            self.apply_closure(&m.args[0].clone(), quote!(vx_er))
                        };
                        Some(match (n.as_str(), c.inputs.is_empty()) {
                            ("or_else", true) => quote!(match #r { Some(vx_x) => Some(vx_x), None => { #b } }),
                            ("unwrap_or_else", true) => quote!(match #r { Some(vx_x) => vx_x, None => { #b } }),
                            ("unwrap_or_else", false) => quote!(match #r { Ok(vx_x) => vx_x, Err(vx_er) => { #b } }),
                            ("ok_or_else", true) => quote!(match #r { Some(vx_x) => Ok(vx_x), None => Err(#b) }),
                            _ => quote!(match #r { Ok(vx_x) => Ok(vx_x), Err(vx_er) => { #b } }),
                        })
                    } else {
                        None
                    }
                }
                ("map_or", 2) => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let mut d = m.args[0].clone();
                    self.visit_expr_mut(&mut d);
                    let b = self.apply_closure(&m.args[1].clone(), quote!(vx_x));
                    Some(quote!(match #r { Some(vx_x) => #b, None => #d }))
                }
                ("map_or_else", 2) => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let d = self.apply_closure0(&m.args[0].clone());
                    let b = self.apply_closure(&m.args[1].clone(), quote!(vx_x));
                    Some(quote!(match #r { Some(vx_x) => #b, None => #d }))
                }
                ("map_err", 1) => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let b = self.apply_closure(&m.args[0].clone(), quote!(vx_er));
                    Some(quote!(match #r { Ok(vx_x) => Ok(vx_x), Err(vx_er) => Err(#b) }))
                }
                ("map", 1) | ("and_then", 1) => {
                    // not an iterator chain: Option
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let b = self.apply_closure(&m.args[0].clone(), quote!(vx_x));
                    if n == "map" {
                        Some(quote!(match #r { Some(vx_x) => Some(#b), None => None }))
                    } else {
                        Some(quote!(match #r { Some(vx_x) => { #b }, None => None }))
                    }
                }
                ("starts_with", 1) | ("ends_with", 1) => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let a = m.args[0].clone();
                    match &a {
                        Expr::Lit(ExprLit { lit: Lit::Char(_), .. }) if n == "starts_with" => {
                            Some(quote!(match #r.vx_chars().vx_first() { Some(vx_x) => vx_x == #a, None => false }))
                        }
                        Expr::Path(_) if n == "starts_with" && path_name(&a).map(|p| self.ix.fns.contains_key(&p)).unwrap_or(false) => {
                            Some(quote!(match #r.vx_chars().vx_first() { Some(vx_x) => #a(vx_x), None => false }))
                        }
                        Expr::Closure(_) if n == "starts_with" => {
                            let b = self.apply_closure(&a, quote!(vx_x));
                            Some(quote!(match #r.vx_chars().vx_first() { Some(vx_x) => #b, None => false }))
                        }
                        _ => None,
                    }
                }
                ("get", 1) if matches!(m.args[0], Expr::Range(_)) => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    if let Expr::Range(rg) = &m.args[0].clone() {
                        let conv = |s: &mut Self, x: &Option<Box<Expr>>| {
                            x.as_ref().map(|b| {
                                let mut b = (**b).clone();
                                s.visit_expr_mut(&mut b);
                                b
                            })
                        };
                        let a = conv(self, &rg.start);
                        let b = conv(self, &rg.end);
                        match (a, b) {
                            (Some(a), Some(b)) => Some(quote!(#r.get_range(#a, #b))),
                            (Some(a), None) => Some(quote!(#r.get_from(#a))),
                            _ => None,
                        }
                    } else {
                        None
                    }
                }
                ("retain", 1) => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let b = self.apply_closure(&m.args[0].clone(), quote!((&vx_x)));
                    self.mark("retain");
                    let (it, out) = (self.fresh("it"), self.fresh("out"));
                    Some(quote!({
                        let mut #it = vx_take_vec(&mut #r).vx_into_iter(); let mut #out = Vec::new();
                        loop { match #it.next() { None => { break; } Some(vx_x) => { if #b { #out.push(vx_x); } } } }
                        #r = #out;
                    }))
                }
                _ => None,
            };
            if let Some(t) = lowered {
                self.mark(&format!(".{}()", n));
                *e = Expr::Verbatim(t);
                return;
            }
        }
        // for loops
        if let Expr::ForLoop(f) = e {
            self.mark("for loop");
            let it = self.fresh("it");
            let pat = f.pat.clone();
            let mut ex = (*f.expr).clone();
            let src: TokenStream = match &ex {
                Expr::Range(r) => {
                    let incl = matches!(r.limits, RangeLimits::Closed(_));
                    let (mut a, mut b) = ((**r.start.as_ref().unwrap()).clone(), (**r.end.as_ref().unwrap()).clone());
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    if incl { quote!(vx_range_incl(#a, #b)) } else if self.opt("usizerange") { quote!(vx_urange(#a, #b)) } else { quote!(vx_range(#a, #b)) }
                }
                Expr::Reference(r) => {
                    // &v / &v[a..]: iterate by reference
                    let mut inner = (*r.expr).clone();
                    self.visit_expr_mut(&mut inner);
                    quote!((&#inner).vx_iter())
                }
                _ => {
                    let (_, ms) = Self::unroll(&ex);
                    let is_chain = ms.iter().any(|m| SOURCES.contains(&m.method.to_string().as_str()))
                        || ms.first().map(|m| matches!(&*m.receiver, Expr::Paren(p) if matches!(*p.expr, Expr::Range(_)))).unwrap_or(false);
                    self.visit_expr_mut(&mut ex);
                    if is_chain { quote!(#ex) } else { quote!((#ex).vx_into_iter()) }
                }
            };
            let mut body = f.body.clone();
            self.visit_block_mut(&mut body);
            let mut pat = pat;
            let mut derefs = vec![];
            self.ref_pats(&mut pat, &mut derefs);
            for (k, d) in derefs.into_iter().enumerate() {
                body.stmts.insert(k, d);
            }
            let st = &body.stmts;
            let label = &f.label;
            *e = Expr::Verbatim(quote!({
                let mut #it = #src;
                #label loop { match #it.next() { None => { break; } Some(#pat) => { #(#st)* } } }
            }));
            return;
        }
        if let Expr::Call(c) = e {
            // (x.body)(args, env)
            if let Expr::Paren(p) = &*c.func {
                if let Expr::Field(f) = &*p.expr {
                    let n = f.member.to_token_stream().to_string();
                    if self.opts.get("fnvalue").map(|v| v.split(',').any(|x| x == n)).unwrap_or(false) {
                        let f = f.clone();
                        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                        for a in &mut args {
                            self.visit_expr_mut(a);
                        }
                        *e = parse_quote!(#f.call(#(#args),*));
                        return;
                    }
                }
            }
            // calls of local function values: body(args, env)
            if let Some(n) = path_name(&c.func) {
                if self.opts.get("fnvalue").map(|v| v.split(',').any(|x| x == n)).unwrap_or(false) {
                    let id = format_ident!("{}", n);
                    let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                    for a in &mut args {
                        self.visit_expr_mut(a);
                    }
                    *e = parse_quote!(#id.call(#(#args),*));
                    return;
                }
            }
        }
        if let Expr::Binary(b) = e {
            // comparison with a string literal
            let is_str = |x: &Expr| matches!(x, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
            // numbers are not text
            let is_num = |x: &Expr| matches!(x, Expr::Lit(ExprLit { lit: Lit::Int(_) | Lit::Float(_) | Lit::Char(_) | Lit::Bool(_), .. })) || matches!(x, Expr::MethodCall(m) if m.method == "len");
            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_))
                && (is_str(&b.left) || is_str(&b.right) || (self.opt("streq") && !is_num(&b.left) && !is_num(&b.right)))
            {
                let ne = matches!(b.op, BinOp::Ne(_));
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                self.visit_expr_mut(&mut l);
                self.visit_expr_mut(&mut r);
                self.mark("string equality");
                if !is_str(&b.left) && !is_str(&b.right) {
                    *e = if ne { parse_quote!(!vx_same(&(#l), &(#r))) } else { parse_quote!(vx_same(&(#l), &(#r))) };
                    return;
                }
                *e = if ne { parse_quote!(!vx_str_eq(#l, #r)) } else { parse_quote!(vx_str_eq(#l, #r)) };
                return;
            }
            let is_fl = |x: &Expr| matches!(x, Expr::Lit(ExprLit { lit: Lit::Float(_), .. }));
            if is_fl(&b.left) || is_fl(&b.right) {
                let f = match b.op {
                    BinOp::Eq(_) => Some(("vx_feq", false)),
                    BinOp::Ne(_) => Some(("vx_feq", true)),
                    BinOp::Lt(_) => Some(("vx_flt", false)),
                    BinOp::Le(_) => Some(("vx_fle", false)),
                    BinOp::Gt(_) => Some(("vx_fgt", false)),
                    BinOp::Ge(_) => Some(("vx_fge", false)),
                    _ => None,
                };
                if let Some((f, neg)) = f {
                    let f = format_ident!("{}", f);
                    let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    self.mark("float comparison");
                    *e = if neg { parse_quote!(!#f(#l, #r)) } else { parse_quote!(#f(#l, #r)) };
                    return;
                }
            }
            if self.opt("arith") {
                let f = match b.op {
                    BinOp::Add(_) => Some("vx_gadd"),
                    BinOp::Sub(_) => Some("vx_gsub"),
                    BinOp::Mul(_) => Some("vx_gmul"),
                    BinOp::Div(_) => Some("vx_gdiv"),
                    BinOp::Rem(_) => Some("vx_grem"),
                    BinOp::Shl(_) => Some("vx_gshl"),
                    BinOp::Shr(_) => Some("vx_gshr"),
                    _ => None,
                };
                if let Some(f) = f {
                    let f = format_ident!("{}", f);
                    let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    self.mark("arithmetic -> function");
                    *e = parse_quote!(#f(#l, #r));
                    return;
                }
                let place = match &*b.left {
                    Expr::Path(_) => true,
                    Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && matches!(*u.expr, Expr::Path(_)),
                    _ => false,
                };
                if let (BinOp::AddAssign(_), true, true) = (b.op, place, self.opt("strplus")) {
                    let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    self.mark("arithmetic -> function");
                    *e = match l {
                        Expr::Unary(u) => { let l = u.expr; parse_quote!(vx_plus(#l, #r)) }
                        l => parse_quote!(vx_plus(&mut #l, #r)),
                    };
                    return;
                }
                let f = match b.op {
                    BinOp::AddAssign(_) => Some("vx_gadd"),
                    BinOp::SubAssign(_) => Some("vx_gsub"),
                    BinOp::MulAssign(_) => Some("vx_gmul"),
                    BinOp::DivAssign(_) => Some("vx_gdiv"),
                    BinOp::RemAssign(_) => Some("vx_grem"),
                    BinOp::ShlAssign(_) => Some("vx_gshl"),
                    BinOp::ShrAssign(_) => Some("vx_gshr"),
                    _ => None,
                };
                if let (Some(f), Expr::Path(_)) = (f, &*b.left) {
                    let f = format_ident!("{}", f);
                    let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    self.mark("arithmetic -> function");
                    *e = parse_quote!(#l = #f(#l, #r));
                    return;
                }
            }
            if self.opt("exprops") {
                let f = match b.op {
                    BinOp::Add(_) => Some("add"),
                    BinOp::Sub(_) => Some("sub"),
                    BinOp::Mul(_) => Some("mul"),
                    BinOp::Div(_) => Some("div"),
                    BinOp::Rem(_) => Some("rem"),
                    _ => None,
                };
                let cmp = match b.op {
                    BinOp::Eq(_) => Some("eq"),
                    BinOp::Ne(_) => Some("ne"),
                    BinOp::Lt(_) => Some("lt"),
                    BinOp::Le(_) => Some("le"),
                    BinOp::Gt(_) => Some("gt"),
                    BinOp::Ge(_) => Some("ge"),
                    _ => None,
                };
                let has_eval = b.to_token_stream().to_string().contains("eval");
                if let (Some(f), true) = (f, has_eval) {
                    let f = format_ident!("{}", f);
                    let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    self.mark("Expression operator -> method");
                    *e = parse_quote!(Expression::#f(#l, #r));
                    return;
                }
                if let (Some(f), true) = (cmp, has_eval) {
                    let f = format_ident!("{}", f);
                    let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    self.mark("Expression comparison -> method");
                    *e = parse_quote!(Expression::#f(&#l, &#r));
                    return;
                }
            }
        }
        // float arithmetic inside Float(..)
        if let Expr::Call(c) = e {
            if let Some(n) = path_name(&c.func) {
                if (n == "Self::Float" || n == "Expression::Float") && c.args.len() == 1 {
                    let a = c.args[0].clone();
                    if let Some(t) = self.float_expr(&a) {
                        self.mark("float arithmetic uninterpreted");
                        let f = &c.func;
                        *e = Expr::Verbatim(quote!(#f(#t)));
                        return;
                    }
                }
                if n == "Self::String" && c.args.len() == 1 {
                    if let Expr::Binary(b) = &c.args[0] {
                        if let BinOp::Add(_) = b.op {
                            let (l, r) = (&b.left, &b.right);
                            let f = &c.func;
                            self.mark("String + &str -> vx_string_add");
                            *e = Expr::Verbatim(quote!(#f(vx_string_add(#l, #r))));
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::Cast(c) = e {
            let t = c.ty.to_token_stream().to_string();
            if ["usize", "u8", "u32", "u64", "i64", "Int", "i32", "char", "f64"].contains(&t.as_str()) && !self.opt("nativecast") {
                let id = format_ident!("vx_as_{}", if t == "Int" { "i64".to_string() } else { t });
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                self.mark("as cast");
                *e = parse_quote!(#id(#x));
                return;
            }
        }
        // string slicing
        if self.opt("strslice") {
            let ix = match e {
                Expr::Reference(r) => match &*r.expr {
                    Expr::Index(ix) => Some(ix.clone()),
                    _ => None,
                },
                // `x[a..b].f()` with a function only texts have
                Expr::MethodCall(m) if ["to_string", "chars", "char_indices", "bytes", "parse", "lines", "trim", "trim_start", "trim_end", "is_char_boundary"].contains(&m.method.to_string().as_str()) => {
                    if let Expr::Index(ix) = &*m.receiver {
                        let ix = ix.clone();
                        if matches!(&*ix.index, Expr::Range(_)) {
                            m.receiver = Box::new(parse_quote!((&#ix)));
                        }
                    }
                    None
                }
                _ => None,
            };
            if let Some(ix) = ix {
                if let Expr::Range(rg) = &*ix.index {
                    let mut b = (*ix.expr).clone();
                    self.visit_expr_mut(&mut b);
                    let conv = |s: &mut Self, x: &Option<Box<Expr>>| {
                        x.as_ref().map(|b| {
                            let mut b = (**b).clone();
                            s.visit_expr_mut(&mut b);
                            b
                        })
                    };
                    let lo = conv(self, &rg.start);
                    let hi = conv(self, &rg.end);
                    self.mark("string slice");
                    *e = match (lo, hi) {
                        (Some(a), Some(c)) => parse_quote!(vx_str_slice(&#b, #a, #c)),
                        (Some(a), None) => parse_quote!(vx_str_from(&#b, #a)),
                        (None, Some(c)) => parse_quote!(vx_str_to(&#b, #c)),
                        _ => parse_quote!(&#b),
                    };
                    return;
                }
            }
        }
        // `super::f(..)`: everything lives in one module here
        if let Expr::Path(p) = e {
            while p.path.segments.len() > 1 && (p.path.segments[0].ident == "super" || (p.path.segments[0].ident == "crate" && p.path.segments.len() == 2)) {
                p.path.segments = p.path.segments.iter().skip(1).cloned().collect();
            }
        }
        // (a..b).contains(&x)
        if let Expr::MethodCall(m) = e {
            if m.method == "contains" && m.args.len() == 1 {
                if let (Expr::Paren(p), Expr::Reference(x)) = (&*m.receiver, &m.args[0]) {
                    if let Expr::Range(r) = &*p.expr {
                        if let (Some(a), Some(b)) = (&r.start, &r.end) {
                            let x = &x.expr;
                            self.mark("range contains");
                            *e = if matches!(r.limits, RangeLimits::Closed(_)) {
                                parse_quote!(((#a) <= (#x) && (#x) <= (#b)))
                            } else {
                                parse_quote!(((#a) <= (#x) && (#x) < (#b)))
                            };
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
            }
        }
        // renamed std methods
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            let ren: &[&str] = &[
                "to_string", "repeat", "reverse", "extend", "to_vec", "to_str", "parse", "split_at_mut", "to_owned", "remove_entry",
                "partial_cmp", "contains_key", "insert_str", "trim", "unwrap_or", "unwrap_or_default", "first", "join", "is_ascii",
                "contains", "into_iter", "iter", "into", "clone_from", "is_char_boundary", "checked_add", "checked_sub", "checked_mul",
                "checked_div", "checked_rem", "checked_neg", "wrapping_add", "wrapping_sub", "wrapping_mul", "wrapping_neg", "wrapping_div",
                "wrapping_rem", "saturating_add", "saturating_sub", "saturating_mul", "max", "min", "abs", "is_negative", "is_positive",
                "unsigned_abs", "div_euclid", "rem_euclid", "get_mut", "truncate", "swap", "drain", "split_off", "concat", "last", "to_lowercase",
                "to_uppercase", "push_str", "checked_shl", "checked_shr", "checked_pow", "checked_abs", "floor", "ceil", "round", "trunc", "powf", "signum",
                "wrapping_shl", "wrapping_shr", "trim_start", "trim_end", "replace", "ends_with", "wrapping_abs", "wrapping_pow", "saturating_pow", "pow",
            ];
            let keep = self.opts.get("keep").map(|v| v.split(',').any(|x| x == n)).unwrap_or(false);
            let also = self.opts.get("ren").map(|v| v.split(',').any(|x| x == n)).unwrap_or(false);
            if (ren.contains(&n.as_str()) || also) && !keep {
                m.method = format_ident!("vx_{}", n);
            }
            if n == "clone" && m.args.is_empty() && self.opt("vclone") {
                m.method = format_ident!("vx_clone");
            }
            if n == "len" && m.args.is_empty() && self.opt("strlen") {
                m.method = format_ident!("vx_len");
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        if self.opt("arith") {
            let k: Vec<String> = p.segments.iter().map(|x| x.ident.to_string()).collect();
            let k: Vec<&str> = k.iter().map(|x| x.as_str()).collect();
            let to = match k.as_slice() {
                ["f64", f] => Some(format!("vx_f64_{}", f)),
                ["u32" | "usize" | "u8", "try_from"] => Some(format!("vx_{}_try_from", k[0])),
                ["std", "f64", "consts", f] => Some(format!("VX_F64_{}", f)),
                _ => None,
            };
            if let Some(t) = to {
                let id = format_ident!("{}", t);
                *p = parse_quote!(#id);
                return;
            }
        }
        if self.opt("exprfrom") && p.segments.len() == 2 && p.segments[0].ident == "Expression" && p.segments[1].ident == "from" {
            *p = parse_quote!(vx_expr_from);
            return;
        }
        if p.segments.len() > 2 && p.segments[0].ident == "std" && p.segments[1].ident == "collections" {
            p.leading_colon = None;
            p.segments = p.segments.iter().skip(2).cloned().collect();
        }
        // the library crate as the binary sees it: everything lives in one module here
        if p.segments.len() > 1 && p.segments[0].ident == "dune" {
            p.leading_colon = None;
            p.segments = p.segments.iter().skip(1).cloned().collect();
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::BareFn(_) = t {
            *t = parse_quote!(BuiltinFn);
            return;
        }
        if let Type::ImplTrait(it) = t {
            let s = it.to_token_stream().to_string();
            if s == "impl ToString" {
                *t = parse_quote!(impl VxToString);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        visit_mut::visit_trait_bound_mut(self, b);
        if let Some(l) = b.path.segments.last_mut() {
            if l.ident == "ToString" {
                l.ident = format_ident!("VxToString");
            }
            if l.ident == "Into" {
                l.ident = format_ident!("VxInto");
            }
            if l.ident == "RangeBounds" {
                let mut seg = l.clone();
                seg.ident = format_ident!("VxRangeBounds");
                b.path = Path { leading_colon: None, segments: [seg].into_iter().collect() };
            }
        }
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

impl<'a> Ctx<'a> {
    fn float_expr(&mut self, e: &Expr) -> Option<TokenStream> {
        match e {
            Expr::Binary(b) => {
                let f = match b.op {
                    BinOp::Add(_) => "vx_fadd",
                    BinOp::Sub(_) => "vx_fsub",
                    BinOp::Mul(_) => "vx_fmul",
                    BinOp::Div(_) => "vx_fdiv",
                    BinOp::Rem(_) => "vx_frem",
                    _ => return None,
                };
                let f = format_ident!("{}", f);
                let l = self.float_expr(&b.left).unwrap_or_else(|| b.left.to_token_stream());
                let r = self.float_expr(&b.right).unwrap_or_else(|| b.right.to_token_stream());
                Some(quote!(#f(#l, #r)))
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => {
                let x = &u.expr;
                Some(quote!(vx_fneg(#x)))
            }
            Expr::Cast(c) if c.ty.to_token_stream().to_string() == "f64" => {
                let x = &c.expr;
                Some(quote!(vx_as_f64(#x)))
            }
            Expr::Paren(p) => self.float_expr(&p.expr),
            _ => None,
        }
    }
}

// ---------- markers ----------
pub struct Marker<'b> {
    pub next_loop: usize,
    pub anchors: &'b [(Anchor, String)],
    pub raws: Vec<String>,
    pub placed: Vec<bool>,
    let_counts: BTreeMap<String, usize>,
    arm_counts: BTreeMap<String, usize>,
}

impl<'b> Marker<'b> {
    pub fn new(anchors: &'b [(Anchor, String)]) -> Self {
        Marker {
            next_loop: 0,
            anchors,
            raws: vec![],
            placed: vec![false; anchors.len()],
            let_counts: Default::default(),
            arm_counts: Default::default(),
        }
    }
    fn raw(&mut self, text: &str) -> Stmt {
        let n = self.raws.len();
        self.raws.push(text.to_string());
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        parse_quote!(__vx_raw!(#lit);)
    }
    fn get(&mut self, a: &Anchor) -> Vec<Stmt> {
        let mut v = vec![];
        for k in 0..self.anchors.len() {
            if &self.anchors[k].0 == a {
                self.placed[k] = true;
                let t = self.anchors[k].1.clone();
                v.push(self.raw(&t));
            }
        }
        v
    }
    pub fn run(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
        let e = self.get(&Anchor::Entry);
        for (k, s) in e.into_iter().enumerate() {
            b.stmts.insert(k, s);
        }
        let t = self.get(&Anchor::Tail);
        if !t.is_empty() {
            if let Some(Stmt::Expr(_, None)) = b.stmts.last() {
                if let Some(Stmt::Expr(e, None)) = b.stmts.pop() {
                    b.stmts.push(parse_quote!(let vx_ret = #e;));
                    b.stmts.extend(t);
                    b.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
                }
            } else {
                b.stmts.extend(t);
            }
        }
    }
    fn loop_body(&mut self, b: &mut Block) -> usize {
        let id = self.next_loop;
        self.next_loop += 1;
        self.visit_block_mut(b);
        let s = self.get(&Anchor::LoopStart(id));
        let e = self.get(&Anchor::LoopEnd(id));
        for (k, x) in s.into_iter().enumerate() {
            b.stmts.insert(k, x);
        }
        b.stmts.extend(e);
        let lit = proc_macro2::Literal::usize_unsuffixed(id);
        b.stmts.insert(0, parse_quote!(__vx_loop!(#lit);));
        id
    }
}

fn pat_names(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.to_string()),
        Pat::Type(t) => pat_names(&t.pat, out),
        Pat::Tuple(t) => t.elems.iter().for_each(|x| pat_names(x, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|x| pat_names(x, out)),
        Pat::Reference(r) => pat_names(&r.pat, out),
        _ => {}
    }
}
fn pat_head(p: &Pat) -> Option<String> {
    let path = match p {
        Pat::TupleStruct(t) => &t.path,
        Pat::Path(t) => &t.path,
        Pat::Struct(t) => &t.path,
        Pat::Or(o) => return o.cases.first().and_then(pat_head),
        Pat::Tuple(t) => return t.elems.first().and_then(pat_head),
        _ => return None,
    };
    Some(path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"))
}

impl<'b> VisitMut for Marker<'b> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let first = self.next_loop;
            let is_loop = matches!(&s, Stmt::Expr(Expr::Loop(_) | Expr::While(_), _));
            self.visit_stmt_mut(&mut s);
            if is_loop {
                out.extend(self.get(&Anchor::BeforeLoop(first)));
            }
            let mut names = vec![];
            if let Stmt::Local(l) = &s {
                pat_names(&l.pat, &mut names);
            }
            out.push(s);
            if is_loop {
                out.extend(self.get(&Anchor::AfterLoop(first)));
            }
            for n in names {
                let c = self.let_counts.entry(n.clone()).or_insert(0);
                let k = *c;
                *c += 1;
                out.extend(self.get(&Anchor::AfterLet(n, k)));
            }
        }
        b.stmts = out;
    }
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        self.visit_expr_mut(&mut w.cond);
        self.loop_body(&mut w.body);
    }
    fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) {
        self.loop_body(&mut w.body);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if let Some(h) = pat_head(&a.pat) {
            let c = self.arm_counts.entry(h.clone()).or_insert(0);
            let k = *c;
            *c += 1;
            let r = self.get(&Anchor::Arm(h, k));
            if !r.is_empty() {
                let b = &a.body;
                a.body = Box::new(parse_quote!({ #(#r)* #b }));
            }
        }
    }
}
