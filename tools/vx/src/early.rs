//! `if c { return x; } rest` as `if c { x } else { rest }`: the body of a helper
//! with early returns as one expression, so that it can stand at its call.
use quote::quote;
use syn::visit::Visit;
use syn::*;

struct Returns(bool);
impl<'a> Visit<'a> for Returns {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn stmt_returns(s: &Stmt) -> bool {
    let mut r = Returns(false);
    r.visit_stmt(s);
    r.0
}
fn expr_returns(e: &Expr) -> bool {
    let mut r = Returns(false);
    r.visit_expr(e);
    r.0
}

/// the statements with no `return` left in them, or None
pub fn unreturn(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let Some(i) = stmts.iter().position(stmt_returns) else { return Some(stmts.to_vec()) };
    let mut out = stmts[..i].to_vec();
    let rest = &stmts[i + 1..];
    match &stmts[i] {
        Stmt::Expr(Expr::Return(r), _) => {
            let e: Expr = match &r.expr {
                Some(e) if !expr_returns(e) => (**e).clone(),
                Some(e) => {
                    out.extend(unreturn(&[Stmt::Expr((**e).clone(), None)])?);
                    return Some(out);
                }
                None => parse_quote!(()),
            };
            out.push(Stmt::Expr(e, None));
            Some(out)
        }
        Stmt::Expr(e, semi) => {
            let tail = rest.is_empty() && semi.is_none();
            let go = |b: Vec<Stmt>| -> Option<Block> {
                let mut b = b;
                if !tail {
                    // the value is dropped
                    if let Some(Stmt::Expr(x, s @ None)) = b.last_mut() {
                        if !matches!(x, Expr::Return(_)) {
                            *s = Some(Default::default());
                        }
                    }
                    b.extend(rest.iter().cloned());
                }
                let st = unreturn(&b)?;
                Some(parse_quote!({ #(#st)* }))
            };
            let e2: Expr = match e {
                Expr::If(x) => {
                    if expr_returns(&x.cond) {
                        return None;
                    }
                    let t = go(x.then_branch.stmts.clone())?;
                    let f = match &x.else_branch {
                        None => go(vec![])?,
                        Some((_, e)) => match &**e {
                            Expr::Block(b) => go(b.block.stmts.clone())?,
                            e => go(vec![Stmt::Expr(e.clone(), None)])?,
                        },
                    };
                    let c = &x.cond;
                    parse_quote!(if #c #t else #f)
                }
                Expr::Match(m) => {
                    if expr_returns(&m.expr) {
                        return None;
                    }
                    let mut m = m.clone();
                    for a in &mut m.arms {
                        let st = match &*a.body {
                            Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
                            e => vec![Stmt::Expr(e.clone(), None)],
                        };
                        let b = go(st)?;
                        a.body = Box::new(parse_quote!(#b));
                        a.comma = Some(Default::default());
                    }
                    Expr::Match(m)
                }
                Expr::Block(b) if b.label.is_none() => {
                    let b = go(b.block.stmts.clone())?;
                    parse_quote!(#b)
                }
                _ => return None,
            };
            out.push(Stmt::Expr(e2, None));
            Some(out)
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let pat = &l.pat;
            let bind = |st: Vec<Stmt>| -> Option<Block> {
                // the last expression of an arm that goes on is the value bound
                let mut st = st;
                match st.pop()? {
                    Stmt::Expr(Expr::Return(r), s) => st.push(Stmt::Expr(Expr::Return(r), s)),
                    Stmt::Expr(e, None) => {
                        st.push(parse_quote!(let #pat = #e;));
                        st.extend(rest.iter().cloned());
                    }
                    _ => return None,
                }
                let st = unreturn(&st)?;
                Some(parse_quote!({ #(#st)* }))
            };
            let e2: Expr = if let Some((_, d)) = &init.diverge {
                if expr_returns(&init.expr) {
                    return None;
                }
                let (e, d) = (&init.expr, unreturn(&[Stmt::Expr((**d).clone(), None)])?);
                let r = unreturn(rest)?;
                let t = quote!(match #e { #pat => { #(#r)* } _ => { #(#d)* } });
                parse2(t).ok()?
            } else {
                match &*init.expr {
                    Expr::If(x) if !expr_returns(&x.cond) => {
                        let t = bind(x.then_branch.stmts.clone())?;
                        let f = match &**x.else_branch.as_ref().map(|(_, e)| e)? {
                            Expr::Block(b) => bind(b.block.stmts.clone())?,
                            e => bind(vec![Stmt::Expr(e.clone(), None)])?,
                        };
                        let c = &x.cond;
                        parse_quote!(if #c #t else #f)
                    }
                    Expr::Match(m) if !expr_returns(&m.expr) => {
                        let mut m = m.clone();
                        for a in &mut m.arms {
                            let st = match &*a.body {
                                Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
                                e => vec![Stmt::Expr(e.clone(), None)],
                            };
                            let b = bind(st)?;
                            a.body = Box::new(parse_quote!(#b));
                            a.comma = Some(Default::default());
                        }
                        Expr::Match(m)
                    }
                    _ => return None,
                }
            };
            out.push(Stmt::Expr(e2, None));
            Some(out)
        }
        _ => None,
    }
}
