//! Turns a unit description plus the real sources into one Verus file.
use crate::lower::{self, Ctx, Index, Marker};
use crate::print::Printer;
use crate::unit::{FnSpec, Item as UItem, Unit};
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Out {
    pub text: String,
    pub map: Value,
}

#[derive(Clone)]
struct Method {
    f: ImplItemFn,
    generics: Generics,
    self_ty: Type,
    assoc: BTreeMap<String, Type>,
}

#[derive(Default)]
struct FileIx {
    fns: BTreeMap<String, ItemFn>,
    methods: BTreeMap<String, Method>,
    closures: BTreeMap<String, Expr>,
    /// the same by the key of the map entry (`String::from("KEY") => ... builtin(..)`)
    keyed: BTreeMap<String, Expr>,
    types: BTreeMap<String, Item>,
    consts: BTreeMap<String, Item>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        s.contains("cfg") && s.contains("test")
    })
}

fn index_items(items: &[Item], ix: &mut FileIx) {
    for it in items {
        match it {
            Item::Fn(f) => {
                if is_test(&f.attrs) {
                    continue;
                }
                nested(&f.block, ix);
                ix.fns.entry(f.sig.ident.to_string()).or_insert(f.clone());
            }
            Item::Mod(m) => {
                if is_test(&m.attrs) {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    index_items(its, ix);
                }
            }
            Item::Struct(s) => {
                ix.types.insert(s.ident.to_string(), it.clone());
            }
            Item::Enum(s) => {
                ix.types.insert(s.ident.to_string(), it.clone());
            }
            Item::Type(s) => {
                ix.types.insert(s.ident.to_string(), it.clone());
            }
            Item::Const(s) => {
                ix.consts.insert(s.ident.to_string(), it.clone());
            }
            Item::Static(s) => {
                ix.consts.insert(s.ident.to_string(), it.clone());
            }
            Item::Impl(im) => {
                let name = match &*im.self_ty {
                    Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => continue,
                };
                let mut assoc = BTreeMap::new();
                for i in &im.items {
                    if let ImplItem::Type(t) = i {
                        assoc.insert(t.ident.to_string(), t.ty.clone());
                    }
                    if let ImplItem::Const(c) = i {
                        let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                        ix.consts.insert(format!("{}::{}", name, id), parse_quote!(const #id: #ty = #e;));
                    }
                }
                for i in &im.items {
                    if let ImplItem::Fn(f) = i {
                        nested(&f.block, ix);
                        let mut key = format!("{}::{}", name, f.sig.ident);
                        if let Some((_, t, _)) = &im.trait_ {
                            let mut tn = t.segments.last().unwrap().to_token_stream().to_string();
                            tn.retain(|c| !c.is_whitespace());
                            key = format!("{}@{}", key, tn);
                        }
                        ix.methods.insert(
                            key,
                            Method { f: f.clone(), generics: im.generics.clone(), self_ty: (*im.self_ty).clone(), assoc: assoc.clone() },
                        );
                    }
                }
            }
            _ => {}
        }
    }
}
fn nested(b: &Block, ix: &mut FileIx) {
    for s in &b.stmts {
        if let Stmt::Item(i) = s {
            if let Item::Fn(_) = i {
                index_items(std::slice::from_ref(i), ix)
            }
        }
    }
}
/// the arguments of `builtin("NAME", closure-or-path, "help")`
fn builtin_args(id: &Ident, g: &proc_macro2::Group) -> Option<(String, Expr)> {
    if (id == "builtin" || id == "define_builtin") && g.delimiter() == proc_macro2::Delimiter::Parenthesis {
        use syn::parse::Parser;
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        if let Ok(args) = p.parse2(g.stream()) {
            if args.len() >= 2 {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &args[0] {
                    return Some((s.value(), args[1].clone()));
                }
            }
        }
    }
    None
}
/// the first builtin(..) in the tokens
fn first_builtin(v: &[TokenTree]) -> Option<Expr> {
    for i in 0..v.len() {
        if let (TokenTree::Ident(id), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if let Some((_, e)) = builtin_args(id, g) {
                return Some(e);
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            if g.delimiter() == proc_macro2::Delimiter::Parenthesis {
                if let Some(e) = first_builtin(&g.stream().into_iter().collect::<Vec<_>>()) {
                    return Some(e);
                }
            }
        }
    }
    None
}
/// every builtin of the file, by its name and by the key it is stored under, also
/// inside macro arguments
fn index_closures(ts: TokenStream, ix: &mut FileIx) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        if let (TokenTree::Ident(id), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if let Some((name, e)) = builtin_args(id, g) {
                ix.closures.entry(name).or_insert(e);
            }
            // String::from("KEY") => VALUE,
            let arrow = matches!((v.get(i + 2), v.get(i + 3)), (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b))) if a.as_char() == '=' && b.as_char() == '>');
            if id == "from" && arrow {
                if let Ok(key) = parse2::<LitStr>(g.stream()) {
                    // a map in the map: its entries by KEY.INNER
                    if let (Some(TokenTree::Ident(m)), Some(TokenTree::Punct(b)), Some(TokenTree::Group(inner))) = (v.get(i + 4), v.get(i + 5), v.get(i + 6)) {
                        if b.as_char() == '!' && m.to_string().contains("map") {
                            let mut sub = FileIx::default();
                            index_closures(inner.stream(), &mut sub);
                            for (k, e) in sub.closures.into_iter().chain(sub.keyed) {
                                ix.keyed.insert(format!("{}.{}", key.value(), k), e);
                            }
                        }
                    }
                    let end = (i + 4..v.len()).find(|k| matches!(&v[*k], TokenTree::Punct(p) if p.as_char() == ',')).unwrap_or(v.len());
                    if let Some(e) = first_builtin(&v[i + 4..end]) {
                        ix.keyed.entry(key.value()).or_insert(e);
                    }
                }
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            index_closures(g.stream(), ix);
        }
    }
}

struct SelfRename;
impl VisitMut for SelfRename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = format_ident!("vx_self");
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = lower::subst_ident(m.tokens.clone(), "self", &quote!(vx_self));
    }
}
struct AssocSubst(BTreeMap<String, Type>);
impl VisitMut for AssocSubst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(r) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = r.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

struct State<'a> {
    repo: &'a str,
    files: BTreeMap<String, FileIx>,
    listed: BTreeSet<String>,
    text: String,
    funcs: Vec<Value>,
    lost: Vec<String>,
    errors: Vec<String>,
    rewrites: BTreeMap<String, BTreeSet<String>>,
    inlined: BTreeSet<String>,
    /// vacuity probes (VX_PROBE)
    probes: usize,
    probed: Vec<Value>,
}

impl<'a> State<'a> {
    fn line(&self) -> usize {
        self.text.matches('\n').count() + 1
    }
    fn load(&mut self, f: &str) {
        if self.files.contains_key(f) {
            return;
        }
        let mut ix = FileIx::default();
        match std::fs::read_to_string(format!("{}/{}", self.repo, f)) {
            Ok(s) => match parse_file(&s) {
                Ok(file) => {
                    index_items(&file.items, &mut ix);
                    index_closures(file.to_token_stream(), &mut ix);
                }
                Err(e) => self.lost.push(format!("{}: {}", f, e)),
            },
            Err(e) => self.lost.push(format!("{}: {}", f, e)),
        }
        self.files.insert(f.to_string(), ix);
    }

    fn emit_types(&mut self, file: &str, names: &[String]) {
        for n in names {
            let (name, derive) = match n.split_once(':') {
                Some((a, b)) => (a.to_string(), b.to_string()),
                None => (n.clone(), String::new()),
            };
            let it = self.files[file].types.get(&name).cloned();
            let Some(mut it) = it else {
                self.lost.push(format!("type {} in {}", name, file));
                continue;
            };
            let ix = Index { fns: Default::default(), methods: Default::default(), listed: Default::default() };
            let o = BTreeMap::new();
            let mut ctx = Ctx::new(&ix, &o, None);
            ctx.visit_item_mut(&mut it);
            match &mut it {
                Item::Struct(s) => {
                    s.vis = parse_quote!(pub);
                    for f in s.fields.iter_mut() {
                        f.vis = parse_quote!(pub);
                    }
                }
                Item::Enum(s) => s.vis = parse_quote!(pub),
                Item::Type(s) => s.vis = parse_quote!(pub),
                _ => {}
            }
            if !derive.is_empty() {
                self.text.push_str(&format!("#[derive({})]\n", derive));
            }
            let loops = BTreeMap::new();
            let mut p = Printer::new(&loops, &[]);
            p.print(it.to_token_stream());
            self.text.push_str(&p.out);
            self.text.push('\n');
        }
    }

    fn emit_fn(&mut self, s: &FnSpec) {
        let label = format!("{}::{}", s.file, s.path);
        let fx = &self.files[&s.file];
        // locate
        let mut self_ty: Option<(Type, Generics)> = None;
        let mut assoc = BTreeMap::new();
        let (mut sig, mut block): (Signature, Block);
        if let Some(name) = s.path.strip_prefix("closure/") {
            let id = format_ident!("{}", s.name.clone().unwrap_or(format!("cl_{}", name)));
            match fx.keyed.get(name).or(fx.closures.get(name)) {
                Some(Expr::Closure(c)) => {
                    let pats: Vec<Pat> = c
                        .inputs
                        .iter()
                        .map(|p| match p {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        })
                        .collect();
                    if pats.len() != 2 {
                        self.lost.push(label);
                        return;
                    }
                    let fix = |p: &Pat, n: &str| -> Pat {
                        match p {
                            Pat::Wild(_) => {
                                let i = format_ident!("{}", n);
                                parse_quote!(#i)
                            }
                            p => p.clone(),
                        }
                    };
                    let (a, e) = (fix(&pats[0], "vx_args"), fix(&pats[1], "vx_env"));
                    sig = parse_quote!(fn #id(#a: Vec<Expression>, #e: &mut Environment) -> Result<Expression, Error>);
                    block = match &*c.body {
                        Expr::Block(b) => b.block.clone(),
                        e => parse_quote!({ #e }),
                    };
                }
                Some(Expr::Path(p)) => {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    match fx.fns.get(&n) {
                        Some(f) => {
                            sig = f.sig.clone();
                            sig.ident = id;
                            block = (*f.block).clone();
                        }
                        None => {
                            self.lost.push(label);
                            return;
                        }
                    }
                }
                _ => {
                    self.lost.push(label);
                    return;
                }
            }
        } else if s.path.contains("::") {
            match fx.methods.get(&s.path) {
                Some(m) => {
                    sig = m.f.sig.clone();
                    block = m.f.block.clone();
                    self_ty = Some((m.self_ty.clone(), m.generics.clone()));
                    assoc = m.assoc.clone();
                }
                None => {
                    self.lost.push(label);
                    return;
                }
            }
        } else {
            match fx.fns.get(&s.path) {
                Some(f) => {
                    sig = f.sig.clone();
                    block = (*f.block).clone();
                }
                None => {
                    self.lost.push(label);
                    return;
                }
            }
        }
        if let Some(n) = &s.name {
            sig.ident = format_ident!("{}", n);
        }
        let mut asub = AssocSubst(assoc);
        asub.visit_signature_mut(&mut sig);
        asub.visit_block_mut(&mut block);

        // type parameters of a trait impl that its self type does not mention become the method's
        if let Some((t, g)) = &mut self_ty {
            let words = words_of(t.to_token_stream());
            let (stay, go): (Vec<GenericParam>, Vec<GenericParam>) = g.params.clone().into_iter().partition(|p| match p {
                GenericParam::Type(tp) => words.contains(&tp.ident.to_string()),
                _ => true,
            });
            if !go.is_empty() {
                g.params = stay.into_iter().collect();
                sig.generics.params.extend(go);
                if let Some(w) = g.where_clause.take() {
                    sig.generics.make_where_clause().predicates.extend(w.predicates);
                }
            }
        }
        // index for this function: its own file first
        let mut fns = BTreeMap::new();
        let mut methods = BTreeMap::new();
        for (n, f) in &self.files {
            for (k, v) in &f.fns {
                if *n == s.file || !fns.contains_key(k) {
                    fns.insert(k.clone(), v.clone());
                }
            }
            for (k, v) in &f.methods {
                methods.insert(k.clone(), v.f.clone());
            }
        }
        let mut listed = self.listed.clone();
        // functions of other files with the same name as a local unlisted helper stay inlinable
        listed.insert(s.path.clone());
        let ix = Index { fns, methods, listed };
        let st_name = self_ty.as_ref().and_then(|(t, _)| match t {
            Type::Path(p) => Some(p.path.segments.last().unwrap().ident.to_string()),
            _ => None,
        });
        let mut rewrites: BTreeSet<String> = Default::default();

        // uncurry
        if lower::returns_fn(&sig) {
            rewrites.insert("uncurry".into());
            let Some(Stmt::Expr(Expr::Closure(c), None)) = block.stmts.pop() else {
                self.lost.push(format!("{} (curried shape)", label));
                return;
            };
            // closure param types from Fn(..) -> R
            if let ReturnType::Type(_, t) = &sig.output {
                if let Type::ImplTrait(t) = &**t {
                    for b in &t.bounds {
                        if let TypeParamBound::Trait(tb) = b {
                            if let PathArguments::Parenthesized(pa) = &tb.path.segments.last().unwrap().arguments {
                                let tys: Vec<Type> = pa.inputs.iter().cloned().collect();
                                for (k, p) in c.inputs.iter().enumerate() {
                                    let pat = match p {
                                        Pat::Type(t) => (*t.pat).clone(),
                                        p => p.clone(),
                                    };
                                    let ty = tys[k].clone();
                                    sig.inputs.push(parse_quote!(#pat: #ty));
                                }
                                sig.output = pa.output.clone();
                                break;
                            }
                        }
                    }
                }
            }
            match &*c.body {
                Expr::Block(b) => block.stmts.extend(b.block.stmts.clone()),
                e => block.stmts.push(Stmt::Expr(e.clone(), None)),
            }
            // anonymous lifetimes: give the signature one explicit lifetime
            let mut lt = FixLt(false);
            lt.visit_signature_mut(&mut sig);
            if lt.0 {
                sig.generics.params.insert(0, parse_quote!('vx));
            }
        }

        // parameters
        let mut names: Vec<String> = vec![];
        let mut pre: Vec<Stmt> = vec![];
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    names.push("self".into());
                    if r.mutability.is_some() && r.reference.is_none() {
                        r.mutability = None;
                        rewrites.insert("mut parameter rebinding".into());
                        pre.push(parse_quote!(let mut vx_self = self;));
                        SelfRename.visit_block_mut(&mut block);
                    }
                }
                FnArg::Typed(t) => match &mut *t.pat {
                    Pat::Ident(p) => {
                        if p.mutability.is_some() {
                            rewrites.insert("mut parameter rebinding".into());
                            let old = p.ident.clone();
                            let new = format_ident!("{}__0", old);
                            p.mutability = None;
                            p.ident = new.clone();
                            pre.push(parse_quote!(let mut #old = #new;));
                        } else if p.ident == sig.ident {
                            // a contract could not name the function otherwise
                            rewrites.insert("parameter of the function's name renamed".into());
                            let old = p.ident.clone();
                            let new = format_ident!("{}__0", old);
                            p.ident = new.clone();
                            pre.push(parse_quote!(let #old = #new;));
                        }
                        names.push(p.ident.to_string());
                    }
                    p => {
                        let id = format_ident!("vx_p{}", names.len());
                        let old = p.clone();
                        pre.push(parse_quote!(let #old = #id;));
                        *p = parse_quote!(#id);
                        names.push(id.to_string());
                    }
                },
            }
        }
        let sub = |t: &str| -> String {
            let mut o = t.to_string();
            for (k, n) in names.iter().enumerate().rev() {
                o = o.replace(&format!("${}", k), n);
            }
            o
        };

        // functions that act on what lies outside the program take it as a last parameter
        let world: Vec<String> = s.opts.get("world").map(|w| w.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
        if world.contains(&sig.ident.to_string()) {
            sig.inputs.push(parse_quote!(vx_w: &mut VxWorld));
        }
        let mut ctx = Ctx::new(&ix, &s.opts, st_name);
        ctx.visit_signature_mut(&mut sig);
        let mut raws: Vec<String> = vec![];
        let mut nloops = 0;
        let mut shape = String::new();
        let mut placed = vec![];
        let mut btoks = quote!({ unimplemented!() });
        if s.verify {
            ctx.lower_fn_body(&mut block);
            block.stmts.splice(0..0, pre);
            match parse2::<Block>(block.to_token_stream()) {
                Ok(mut b) => {
                    let mut strs = BTreeSet::new();
                    collect_strs(b.to_token_stream(), &mut strs);
                    // shortstr=N: only those of at most N characters
                    if let Some(Ok(n)) = s.opts.get("shortstr").map(|n| n.parse::<usize>()) {
                        strs.retain(|x| x.chars().count() <= n);
                    }
                    if s.opts.contains_key("revealstr") && !strs.is_empty() {
                        let l: Vec<LitStr> = strs.iter().map(|x| LitStr::new(x, proc_macro2::Span::call_site())).collect();
                        let mut facts = vec![];
                        for x in &l {
                            let v: Vec<char> = x.value().chars().collect();
                            let n = proc_macro2::Literal::usize_unsuffixed(v.len());
                            let mut f = vec![quote!(reveal_strlit(#x); assert((#x) @ .len() == #n);)];
                            for (k, c) in v.iter().enumerate() {
                                let k = proc_macro2::Literal::usize_unsuffixed(k);
                                f.push(quote!(assert((#x) @ [#k] == #c);));
                            }
                            match s.opts.get("litfact") {
                                None => facts.extend(f),
                                // only a named fact about each literal, and how it starts
                                Some(name) => {
                                    let name = format_ident!("{}", name);
                                    let scan = format_ident!("{}_scan", name);
                                    let n1 = proc_macro2::Literal::usize_unsuffixed(v.len() + 1);
                                    let first = match v.first() {
                                        Some(c) => quote!((#x) @ [0] == #c),
                                        None => quote!(true),
                                    };
                                    facts.push(quote!(assert(#name((#x) @) && (#x) @ .len() == #n && #first) by { #(#f)* reveal(#name); reveal_with_fuel(#scan, #n1); };));
                                }
                            }
                        }
                        b.stmts.insert(0, parse_quote!(proof!{ #(#facts)* };));
                    }
                    if !world.is_empty() {
                        rewrites.insert("outside world passed explicitly".into());
                        World(&world).visit_block_mut(&mut b);
                    }
                    let anchors: Vec<_> = s.raws.iter().map(|(a, t)| (a.clone(), sub(t))).collect();
                    let mut m = Marker::new(&anchors);
                    m.run(&mut b);
                    nloops = m.next_loop;
                    let mut sh = Shape(String::new());
                    sh.visit_block_mut(&mut b);
                    shape = sh.0;
                    placed = m.placed.clone();
                    raws = m.raws.clone();
                    if std::env::var("VX_PROBE").is_ok() {
                        let mut pr = Probe { next: self.probes, at: vec![] };
                        pr.fun(&mut b, s.raws.iter().any(|(a, _)| *a == crate::unit::Anchor::Entry) as usize);
                        for w in pr.at {
                            self.probed.push(json!({"k": w.0, "what": format!("{} {}", s.path, w.1)}));
                        }
                        self.probes = pr.next;
                    }
                    btoks = b.to_token_stream();
                }
                Err(e) => ctx.errors.push(format!("lowered body does not parse: {}", e)),
            }
            if let Some(n) = s.nloops {
                if n != nloops {
                    self.lost.push(format!("{}: {} loops, {} expected", label, nloops, n));
                }
            }
            for (k, p) in placed.iter().enumerate() {
                if !p {
                    self.lost.push(format!("{}: anchor {:?}", label, s.raws[k].0));
                }
            }
        }
        for e in ctx.errors.drain(..) {
            self.errors.push(format!("{}: {}", label, e));
        }
        rewrites.extend(ctx.used.clone());
        self.inlined.extend(ctx.inlined.clone());
        for r in &rewrites {
            self.rewrites.entry(r.clone()).or_default().insert(s.path.clone());
        }

        // print
        let loops: BTreeMap<usize, String> = s.loops.iter().map(|(k, v)| (*k, sub(v))).collect();
        let start = self.line();
        let mut attrs = s.attrs.clone();
        if s.verify && s.opts.contains_key("ctx") {
            attrs.push_str("#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n");
        }
        if !s.verify {
            attrs.push_str("#[verifier::external_body]\n");
        }
        let ret = format_ident!("{}", s.ret);
        let out = match &sig.output {
            ReturnType::Default => quote!(),
            ReturnType::Type(_, t) => quote!(-> (#ret: #t)),
        };
        sig.output = ReturnType::Default;
        let wc = sig.generics.where_clause.take();
        let mut p = Printer::new(&loops, &raws);
        if let Some((t, g)) = &self_ty {
            let (ig, _, wc) = g.split_for_impl();
            p.print(quote!(impl #ig #t #wc));
            p.out.push_str("{\n");
        }
        p.out.push_str(&attrs);
        p.print(quote!(pub #sig #out #wc));
        p.out.push('\n');
        p.out.push_str(&sub(&s.contract));
        p.print(btoks);
        if self_ty.is_some() {
            p.out.push_str("}\n");
        }
        self.text.push_str(&format!("// vx: {}\n", label));
        self.text.push_str(&p.out);
        self.text.push('\n');
        let end = self.line();
        self.funcs.push(json!({
            "path": s.path, "file": s.file, "name": sig.ident.to_string(),
            "verify": s.verify, "start": start, "end": end, "loops": nloops, "shape": shape,
        }));
    }
}

/// the loops of a function and how they nest: what the invariants were written for
struct Shape(String);
impl VisitMut for Shape {
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        self.0.push_str("while(");
        visit_mut::visit_expr_while_mut(self, w);
        self.0.push(')');
    }
    fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) {
        let it = w.body.stmts.iter().any(|s| match s {
            Stmt::Expr(Expr::Match(m), _) => {
                let t = m.expr.to_token_stream().to_string();
                t.starts_with("vx_it") && t.contains("next")
            }
            _ => false,
        });
        self.0.push_str(if it { "for(" } else { "loop(" });
        visit_mut::visit_expr_loop_mut(self, w);
        self.0.push(')');
    }
}

/// `assert(!vx_probe(k))` where the contracts in force must not be contradictory
struct Probe {
    next: usize,
    at: Vec<(usize, String)>,
}
impl Probe {
    fn stmt(&mut self, what: &str) -> Stmt {
        let k = proc_macro2::Literal::usize_unsuffixed(self.next);
        self.at.push((self.next, what.to_string()));
        self.next += 1;
        parse_quote!(proof!{ assert(!vx_probe(#k)); };)
    }
    fn fun(&mut self, b: &mut Block, at: usize) {
        self.visit_block_mut(b);
        let entry = self.stmt("entry");
        b.stmts.insert(at, entry);
        self.tail(b);
    }
    fn tail(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        match b.stmts.last_mut() {
            Some(Stmt::Expr(Expr::Match(m), None)) => {
                for a in m.arms.iter_mut() {
                    match &mut *a.body {
                        Expr::Block(x) if x.label.is_none() => self.tail(&mut x.block),
                        _ => {}
                    }
                }
            }
            Some(Stmt::Expr(Expr::If(i), None)) => {
                self.tail(&mut i.then_branch);
                if let Some((_, e)) = &mut i.else_branch {
                    if let Expr::Block(x) = &mut **e {
                        self.tail(&mut x.block);
                    }
                }
            }
            Some(Stmt::Expr(e, None)) if !matches!(e, Expr::Loop(_) | Expr::While(_)) => {
                let p = self.stmt("tail");
                b.stmts.insert(n - 1, p);
            }
            _ => {}
        }
    }
}
impl VisitMut for Probe {
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        visit_mut::visit_expr_while_mut(self, w);
        let p = self.stmt("loop");
        w.body.stmts.insert(1.min(w.body.stmts.len()), p);
    }
    fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) {
        visit_mut::visit_expr_loop_mut(self, w);
        let p = self.stmt("loop");
        w.body.stmts.insert(1.min(w.body.stmts.len()), p);
    }
}

fn words_of(ts: TokenStream) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                o.insert(i.to_string());
            }
            TokenTree::Group(g) => o.extend(words_of(g.stream())),
            _ => {}
        }
    }
    o
}
fn collect_strs(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Literal(l) => {
                if let Lit::Str(s) = Lit::new(l) {
                    out.insert(s.value());
                }
            }
            TokenTree::Group(g) => collect_strs(g.stream(), out),
            _ => {}
        }
    }
}
struct World<'a>(&'a [String]);
impl<'a> VisitMut for World<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) if self.0.contains(&m.method.to_string()) => m.args.push(parse_quote!(vx_w)),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if self.0.contains(&p.path.segments.last().unwrap().ident.to_string()) {
                        c.args.push(parse_quote!(vx_w));
                    }
                }
            }
            _ => {}
        }
    }
}
struct StaticLt;
impl VisitMut for StaticLt {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        if t.lifetime.is_none() {
            t.lifetime = Some(parse_quote!('static));
        }
        visit_mut::visit_type_reference_mut(self, t)
    }
}
struct FixLt(bool);
impl VisitMut for FixLt {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        if t.lifetime.is_none() {
            // borrowed helper arguments (keyword: &str) keep their own lifetime
        }
        visit_mut::visit_type_reference_mut(self, t)
    }
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident == "_" {
            *l = parse_quote!('vx);
            self.0 = true;
        }
    }
}

pub fn run(repo: &str, u: &Unit) -> Out {
    let mut listed: BTreeSet<String> = u.known.iter().cloned().collect();
    for i in &u.items {
        if let UItem::Fn(f) = i {
            listed.insert(f.path.clone());
        }
    }
    let mut st = State {
        repo,
        files: Default::default(),
        listed,
        text: String::new(),
        funcs: vec![],
        lost: vec![],
        errors: vec![],
        rewrites: Default::default(),
        inlined: Default::default(),
        probes: 0,
        probed: vec![],
    };
    for s in &u.sources {
        st.load(s);
    }
    let mut raw_ranges = vec![];
    for i in &u.items {
        match i {
            UItem::Raw(t) => {
                let a = st.line();
                st.text.push_str(&word_texts(t));
                let b = st.line();
                raw_ranges.push(json!([a, b]));
            }
            UItem::Types(f, n) => st.emit_types(f, n),
            UItem::Consts(f, n) => {
                for c in n {
                    // `Type::*`: the associated constants of a type
                    if let Some(ty) = c.strip_suffix("::*") {
                        let pre = format!("{}::", ty);
                        let ks: Vec<(String, Item)> = st.files[f].consts.iter().filter(|(k, _)| k.starts_with(&pre)).map(|(k, v)| (k.clone(), v.clone())).collect();
                        let t = format_ident!("{}", ty);
                        for (_, k) in ks {
                            if let Item::Const(k) = k {
                                let (id, mut ct, e) = (&k.ident, (*k.ty).clone(), &k.expr);
                                StaticLt.visit_type_mut(&mut ct);
                                st.text.push_str(&quote!(impl #t { pub const #id: #ct = #e; }).to_string());
                                st.text.push('\n');
                            }
                        }
                        continue;
                    }
                    match st.files[f].consts.get(c).cloned() {
                        Some(Item::Const(k)) => {
                            let (id, mut ty, e) = (&k.ident, (*k.ty).clone(), &k.expr);
                            StaticLt.visit_type_mut(&mut ty);
                            st.text.push_str(&quote!(pub const #id: #ty = #e;).to_string());
                            st.text.push('\n');
                        }
                        _ => st.lost.push(format!("const {} in {}", c, f)),
                    }
                }
            }
            UItem::Fn(f) => st.emit_fn(f),
        }
    }
    let map = json!({
        "unit": u.name, "sources": u.sources, "functions": st.funcs, "lost": st.lost, "errors": st.errors,
        "rewrites": st.rewrites, "inlined": st.inlined, "raw": raw_ranges, "probed": st.probed,
    });
    Out { text: st.text, map }
}

/// where a text is cut into pieces: behind blanks
pub fn pieces(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c != ' ' && cur.ends_with(' ') {
            v.push(std::mem::take(&mut cur));
        }
        cur.push(c);
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}
/// `w"a b"` in specifications: the text as the sum of its pieces
fn word_texts(t: &str) -> String {
    let mut o = String::new();
    let mut rest = t;
    while let Some(i) = rest.find("w\"") {
        if rest[..i].ends_with(|c: char| c.is_alphanumeric() || c == '_') {
            o.push_str(&rest[..i + 2]);
            rest = &rest[i + 2..];
            continue;
        }
        o.push_str(&rest[..i]);
        let body = &rest[i + 2..];
        let mut end = 0;
        let mut esc = false;
        for (k, c) in body.char_indices() {
            if esc { esc = false; } else if c == '\\' { esc = true; } else if c == '"' { end = k; break; }
        }
        let v: Vec<String> = pieces(&body[..end]).iter().map(|p| format!("\"{}\"@", p)).collect();
        o.push_str(&v.join(" + "));
        rest = &body[end + 1..];
    }
    o.push_str(rest);
    o
}
