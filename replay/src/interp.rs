//! A reference evaluator, written from the properties: what an expression yields, what it
//! leaves bound, which probes run in which order and which programs run with which words.
use super::p_arith::truthy;
use dune::{Environment, Error, Expression as X};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub const LIMIT: usize = 800;
thread_local! {
    pub static TRACE: RefCell<Vec<String>> = RefCell::new(vec![]);
}
fn say(s: String) {
    TRACE.with(|t| t.borrow_mut().push(s));
}
// ------------------------------------------------------------------ probes, on the real side
fn tick(args: Vec<X>, env: &mut Environment) -> Result<X, Error> {
    say(format!("tick {}", args[0]));
    let mut v = X::None;
    for a in &args[1..] {
        v = a.eval(env)?;
    }
    Ok(v)
}
fn fail(args: Vec<X>, _: &mut Environment) -> Result<X, Error> {
    say(format!("fail {}", args[0]));
    Err(Error::CustomError(format!("fail {}", args[0])))
}
fn put(args: Vec<X>, env: &mut Environment) -> Result<X, Error> {
    say(format!("put {}", args[0]));
    if let X::String(n) = &args[0] {
        let v = args[1].eval(env)?;
        env.bindings.insert(n.clone(), v.clone());
        return Ok(v);
    }
    Ok(X::None)
}
pub fn probe(n: usize) -> X {
    match n {
        0 => X::builtin("tick", tick, ""),
        1 => X::builtin("fail", fail, ""),
        _ => X::builtin("put", put, ""),
    }
}

// ------------------------------------------------------------------ the reference
pub enum Stop {
    Error(Error),
    /// too much work: no verdict
    Budget,
}
pub type W = Result<X, Stop>;
pub struct Ref {
    pub trace: Vec<String>,
    pub steps: usize,
    pub max_steps: usize,
    pub max_size: usize,
    /// the program that exists, if any
    pub script: String,
    pub runs: Vec<(String, Vec<String>)>,
}
pub fn lookup(e: &Environment, k: &str) -> Option<X> {
    match e.bindings.get(k) {
        Some(x) => Some(x.clone()),
        // an outer scope
        None => e.get(k),
    }
}
pub fn cwd(e: &Environment) -> String {
    match lookup(e, "CWD") {
        Some(X::String(s)) => s,
        _ => "/".into(),
    }
}
pub fn names(e: &X, out: &mut Vec<String>) {
    match e {
        X::Symbol(s) => out.push(s.clone()),
        X::For(_, l, b) => {
            names(l, out);
            names(b, out);
        }
        X::Do(v) | X::List(v) => v.iter().for_each(|x| names(x, out)),
        X::Map(m) => m.values().for_each(|x| names(x, out)),
        X::Group(x) | X::Quote(x) | X::Lambda(_, x, _) | X::Macro(_, x) | X::Assign(_, x) => names(x, out),
        X::If(a, b, c) => {
            names(a, out);
            names(b, out);
            names(c, out);
        }
        X::Apply(f, v) => {
            names(f, out);
            v.iter().for_each(|x| names(x, out));
        }
        X::None | X::Integer(_) | X::Float(_) | X::Bytes(_) | X::String(_) | X::Boolean(_) | X::Builtin(_) => {}
    }
}
/// how big a value is, up to `cap`
fn size(e: &X, cap: usize) -> usize {
    let mut n = 1;
    let mut todo: Vec<&X> = vec![e];
    while let Some(x) = todo.pop() {
        n += 1;
        if n > cap {
            return n;
        }
        match x {
            X::For(_, a, b) => todo.extend([&**a, &**b]),
            X::Do(v) | X::List(v) => todo.extend(v),
            X::Map(m) => todo.extend(m.values()),
            X::Group(x) | X::Quote(x) | X::Macro(_, x) | X::Assign(_, x) => todo.push(x),
            X::Lambda(_, x, e) => {
                todo.push(x);
                todo.extend(e.bindings.values());
            }
            X::If(a, b, c) => todo.extend([&**a, &**b, &**c]),
            X::Apply(f, v) => {
                todo.push(f);
                todo.extend(v);
            }
            _ => {}
        }
    }
    n
}
fn flatten(x: &X, out: &mut Vec<X>) {
    match x {
        X::List(v) => v.iter().for_each(|y| flatten(y, out)),
        X::Group(y) => flatten(y, out),
        _ => out.push(x.clone()),
    }
}
impl Ref {
    pub fn new() -> Self {
        Ref { trace: vec![], steps: 0, max_steps: 30000, max_size: 1500, script: String::new(), runs: vec![] }
    }
    fn ok(&self, x: X) -> W {
        if size(&x, self.max_size) > self.max_size { Err(Stop::Budget) } else { Ok(x) }
    }
    pub fn eval(&mut self, e: &X, env: &mut Environment, d: usize) -> W {
        self.steps += 1;
        if self.steps > self.max_steps {
            return Err(Stop::Budget);
        }
        if d > LIMIT {
            return Err(Stop::Error(Error::RecursionDepth(e.clone())));
        }
        match e {
            X::None | X::Integer(_) | X::Float(_) | X::Boolean(_) | X::Bytes(_) | X::String(_) | X::Macro(..) | X::Builtin(_) => Ok(e.clone()),
            X::Quote(x) => Ok((**x).clone()),
            X::Group(x) => self.eval(x, env, d + 1),
            X::Symbol(n) => Ok(lookup(env, n).unwrap_or_else(|| e.clone())),
            X::Assign(n, x) => {
                let v = self.eval(x, env, d + 1)?;
                env.bindings.insert(n.clone(), v);
                Ok(X::None)
            }
            X::For(n, l, b) => match self.eval(l, env, d + 1)? {
                X::List(items) => {
                    let mut out = vec![];
                    for x in items {
                        env.bindings.insert(n.clone(), x);
                        out.push(self.eval(b, env, d + 1)?);
                    }
                    self.ok(X::List(out))
                }
                _ => Err(Stop::Error(Error::ForNonList((**l).clone()))),
            },
            X::If(c, a, b) => {
                let v = self.eval(c, env, d + 1)?;
                self.eval(if truthy(&v) { a } else { b }, env, d + 1)
            }
            X::List(v) => {
                let mut out = vec![];
                for x in v {
                    out.push(self.eval(x, env, d + 1)?);
                }
                self.ok(X::List(out))
            }
            X::Map(m) => {
                let mut out = BTreeMap::new();
                for (k, x) in m {
                    out.insert(k.clone(), self.eval(x, env, d + 1)?);
                }
                self.ok(X::Map(out))
            }
            X::Do(v) => {
                let mut last = X::None;
                for x in v {
                    last = self.eval(x, env, d + 1)?;
                }
                Ok(last)
            }
            X::Lambda(p, b, c) => {
                let mut inner = c.clone();
                inner.bindings.insert(p.clone(), X::None);
                inner.bindings.insert("CWD".into(), X::String(cwd(env)));
                let mut used = vec![];
                names(b, &mut used);
                for n in used {
                    if n != *p && lookup(c, &n).is_none() {
                        if let Some(v) = lookup(env, &n) {
                            inner.bindings.insert(n, v);
                        }
                    }
                }
                self.ok(X::Lambda(p.clone(), b.clone(), inner))
            }
            X::Apply(f, a) => match self.eval(f, env, d + 1)? {
                X::Symbol(n) | X::String(n) => self.run(e, n, a, env, d),
                X::Lambda(p, b, c) if a.len() > 0 => {
                    let dir = cwd(env);
                    let v = self.eval(&a[0], env, d + 1)?;
                    let mut inner = c;
                    inner.bindings.insert("CWD".into(), X::String(dir));
                    inner.bindings.insert(p, v);
                    let r = self.eval(&b, &mut inner, d + 1)?;
                    if a.len() == 1 { Ok(r) } else { self.eval(&X::Apply(Box::new(r), a[1..].to_vec()), env, d + 1) }
                }
                X::Macro(p, b) if a.len() > 0 => {
                    let v = self.eval(&a[0], env, d + 1)?;
                    env.bindings.insert(p, v);
                    let r = self.eval(&b, env, d + 1)?;
                    if a.len() == 1 { Ok(r) } else { self.eval(&X::Apply(Box::new(r), a[1..].to_vec()), env, d + 1) }
                }
                X::Builtin(b) => self.builtin(&b.name, a, env),
                _ => Err(Stop::Error(Error::CannotApply((**f).clone(), a.clone()))),
            },
        }
    }
    fn run(&mut self, e: &X, name: String, a: &[X], env: &mut Environment, d: usize) -> W {
        let mut words = vec![];
        for x in a {
            let v = self.eval(x, env, d + 1)?;
            let mut f = vec![];
            flatten(&v, &mut f);
            for w in f {
                match w {
                    X::None => {}
                    X::String(s) => words.push(s),
                    X::Bytes(b) => words.push(String::from_utf8_lossy(&b).into_owned()),
                    w => words.push(format!("{}", w)),
                }
            }
        }
        if name == self.script && !name.is_empty() {
            self.runs.push((cwd(env), words));
            return Ok(X::None);
        }
        // a directory cannot be run
        if name.starts_with('/') && std::path::Path::new(&name).is_dir() && std::path::Path::new(&cwd(env)).is_dir() {
            return Err(Stop::Error(Error::PermissionDenied(e.clone())));
        }
        Err(Stop::Error(Error::ProgramNotFound(name)))
    }
    fn builtin(&mut self, name: &str, a: &[X], env: &mut Environment) -> W {
        self.trace.push(format!("{} {}", name, a[0]));
        match name {
            "tick" => {
                let mut v = X::None;
                for x in &a[1..] {
                    v = self.eval(x, env, 0)?;
                }
                Ok(v)
            }
            "fail" => Err(Stop::Error(Error::CustomError(format!("fail {}", a[0])))),
            _ => {
                if let X::String(n) = &a[0] {
                    let v = self.eval(&a[1], env, 0)?;
                    env.bindings.insert(n.clone(), v.clone());
                    return Ok(v);
                }
                Ok(X::None)
            }
        }
    }
}

// ------------------------------------------------------------------ comparing
pub fn same_env(a: &Environment, b: &Environment) -> bool {
    a.bindings.len() == b.bindings.len() && a.bindings.iter().zip(&b.bindings).all(|((k, x), (l, y))| k == l && same(x, y))
}
fn all(a: &[X], b: &[X]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}
/// the same expression, structurally
pub fn same(a: &X, b: &X) -> bool {
    match (a, b) {
        (X::None, X::None) => true,
        (X::Float(x), X::Float(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (X::Integer(x), X::Integer(y)) => x == y,
        (X::Boolean(x), X::Boolean(y)) => x == y,
        (X::Bytes(x), X::Bytes(y)) => x == y,
        (X::String(x), X::String(y)) | (X::Symbol(x), X::Symbol(y)) => x == y,
        (X::List(x), X::List(y)) | (X::Do(x), X::Do(y)) => all(x, y),
        (X::Map(x), X::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && same(p, q)),
        (X::Group(x), X::Group(y)) | (X::Quote(x), X::Quote(y)) => same(x, y),
        (X::Assign(n, x), X::Assign(m, y)) | (X::Macro(n, x), X::Macro(m, y)) => n == m && same(x, y),
        (X::For(n, x, p), X::For(m, y, q)) => n == m && same(x, y) && same(p, q),
        (X::If(x, p, s), X::If(y, q, t)) => same(x, y) && same(p, q) && same(s, t),
        (X::Apply(f, x), X::Apply(g, y)) => same(f, g) && all(x, y),
        (X::Lambda(n, x, e), X::Lambda(m, y, g)) => n == m && same(x, y) && same_env(e, g),
        (X::Builtin(x), X::Builtin(y)) => x.name == y.name && x.body as usize == y.body as usize,
        _ => false,
    }
}
pub fn same_error(a: &Error, b: &Error) -> bool {
    match (a, b) {
        (Error::CannotApply(f, x), Error::CannotApply(g, y)) => same(f, g) && all(x, y),
        (Error::CommandFailed(f, x), Error::CommandFailed(g, y)) => f == g && all(x, y),
        (Error::ForNonList(x), Error::ForNonList(y)) | (Error::RecursionDepth(x), Error::RecursionDepth(y)) | (Error::PermissionDenied(x), Error::PermissionDenied(y)) => same(x, y),
        (Error::ProgramNotFound(x), Error::ProgramNotFound(y)) | (Error::CustomError(x), Error::CustomError(y)) | (Error::SymbolNotDefined(x), Error::SymbolNotDefined(y)) => x == y,
        _ => false,
    }
}
/// readable, with structure
pub fn show(e: &X) -> String {
    fn many(v: &[X]) -> String {
        v.iter().map(show).collect::<Vec<_>>().join(", ")
    }
    match e {
        X::None => "None".into(),
        X::String(s) => format!("{:?}", s),
        X::Group(x) => format!("({})", show(x)),
        X::Quote(x) => format!("'({})", show(x)),
        X::List(v) => format!("[{}]", many(v)),
        X::Do(v) => format!("{{{}}}", v.iter().map(show).collect::<Vec<_>>().join("; ")),
        X::Map(m) => format!("{{{}}}", m.iter().map(|(k, x)| format!("{}={}", k, show(x))).collect::<Vec<_>>().join(", ")),
        X::Assign(n, x) => format!("let {} = {}", n, show(x)),
        X::For(n, l, b) => format!("for {} in {} {{ {} }}", n, show(l), show(b)),
        X::If(c, a, b) => format!("if {} {{ {} }} else {{ {} }}", show(c), show(a), show(b)),
        X::Apply(f, v) => format!("<{}>({})", show(f), many(v)),
        X::Lambda(p, b, c) => format!("({} -> {} with {})", p, show(b), show_env(c)),
        X::Macro(p, b) => format!("({} ~> {})", p, show(b)),
        X::Builtin(b) => format!("${}", b.name),
        X::Bytes(b) => format!("b{:?}", b),
        x => format!("{}", x),
    }
}
pub fn show_env(e: &Environment) -> String {
    format!("{{{}}}", e.bindings.iter().map(|(k, x)| format!("{}: {}", k, show(x))).collect::<Vec<_>>().join(", "))
}
pub fn show_error(e: &Error) -> String {
    match e {
        Error::RecursionDepth(x) => format!("recursion depth at {}", cut(show(x))),
        Error::CannotApply(f, x) => format!("cannot apply {} to {}", show(f), show(&X::List(x.clone()))),
        e => format!("{:?}", e),
    }
}
pub fn cut(s: String) -> String {
    if s.chars().count() > 1500 { s.chars().take(1500).collect::<String>() + "..." } else { s }
}
