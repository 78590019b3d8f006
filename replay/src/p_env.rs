use super::util::*;
use dune::{Environment, Error, Expression};
use std::collections::BTreeMap;

const NAMES: &[&str] = &["x", "y", "z", "CWD", "", "é", "xy", "cwd", "X"];
const DIRS: &[&str] = &["/", "", "/tmp", "/a b/é", ".", "x/", "C:\\"];

/// the innermost scope first
#[derive(Clone, Debug, Default)]
struct Model(Vec<BTreeMap<String, Expression>>);
impl Model {
    fn get(&self, k: &str) -> Option<Expression> {
        self.0.iter().find_map(|m| m.get(k).cloned())
    }
    fn cwd(&self) -> String {
        match self.get("CWD") {
            Some(Expression::String(s)) => s,
            _ => "/".into(),
        }
    }
}
fn bi(_: Vec<Expression>, _: &mut Environment) -> Result<Expression, Error> {
    Ok(Expression::Integer(77))
}
fn value(r: &mut Rng) -> Expression {
    match r.below(9) {
        0 => Expression::None,
        1 => Expression::Symbol(r.pick(NAMES).to_string()),
        2 => Expression::String(r.pick(DIRS).to_string()),
        3 => Expression::List(vec![Expression::Integer(1)]),
        4 => Expression::Boolean(false),
        5 => Expression::Bytes(vec![47]),
        6 => Expression::Map(BTreeMap::new()),
        _ => Expression::Integer(r.below(1000) as i64),
    }
}
fn check(what: &str, env: &Environment, m: &Model, log: &str) -> Res {
    for n in NAMES {
        let (a, b) = (env.get(n), m.get(n));
        let eq = match (&a, &b) {
            (None, None) => true,
            (Some(Expression::Builtin(x)), Some(Expression::Builtin(y))) => x.name == y.name && x.help == y.help,
            (Some(x), Some(y)) => x == y,
            _ => false,
        };
        if !eq {
            return fail(format!("{}; then get({:?})", log, n), format!("{:?}", b), format!("{:?}", a));
        }
        if env.is_defined(n) != b.is_some() {
            return fail(format!("{}; then is_defined({:?})", log, n), b.is_some(), env.is_defined(n));
        }
    }
    if env.get_cwd() != m.cwd() {
        return fail(format!("{}; then get_cwd()", log), m.cwd(), env.get_cwd());
    }
    if env.bindings.len() != m.0[0].len() || env.bindings.keys().ne(m.0[0].keys()) {
        return fail(format!("{}; then bindings", log), format!("{:?}", m.0[0].keys()), format!("{:?}", env.bindings.keys()));
    }
    Ok(())
}
fn e05(seed: u64, ix: u64) -> Res {
    let mut r = Rng::new(seed, ix);
    let mut pool: Vec<(Environment, Model)> = vec![];
    let mut log = String::new();
    let steps = r.range(1, 14);
    let fresh = || if ix % 2 == 0 { Environment::new() } else { Environment::default() };
    let mut env = fresh();
    let mut m = Model(vec![BTreeMap::new()]);
    check("new", &env, &m, "new()")?;
    for _ in 0..steps {
        let n = *r.pick(NAMES);
        match r.below(12) {
            0..=2 => {
                let v = value(&mut r);
                log.push_str(&format!("define({:?}, {:?}); ", n, v));
                note(&log);
                env.define(n, v.clone());
                m.0[0].insert(n.into(), v);
            }
            3 | 4 => {
                log.push_str(&format!("undefine({:?}); ", n));
                note(&log);
                env.undefine(n);
                m.0[0].remove(n);
            }
            5 => {
                let d = *r.pick(DIRS);
                log.push_str(&format!("set_cwd({:?}); ", d));
                note(&log);
                env.set_cwd(d);
                m.0[0].insert("CWD".into(), Expression::String(d.into()));
            }
            6 => {
                let mut mm: BTreeMap<&str, Expression> = BTreeMap::new();
                for _ in 0..r.below(4) {
                    mm.insert(*r.pick(NAMES), value(&mut r));
                }
                log.push_str(&format!("define_module({:?}, {:?}); ", n, mm));
                note(&log);
                env.define_module(n, mm.clone());
                m.0[0].insert(n.into(), Expression::Map(mm.into_iter().map(|(k, v)| (k.to_string(), v)).collect()));
            }
            7 => {
                log.push_str(&format!("define_builtin({:?}); ", n));
                note(&log);
                env.define_builtin(n, bi, "h");
                if let Some(Expression::Builtin(b)) = env.get(n) {
                    match (b.body)(vec![], &mut Environment::new()) {
                        Ok(Expression::Integer(77)) => {}
                        x => return fail(format!("{}; call", log), "the given function", format!("{:?}", x)),
                    }
                }
                m.0[0].insert(n.into(), Expression::builtin(n, bi, "h"));
            }
            8 | 9 => {
                // becomes the parent of a new scope
                log.push_str("inner scope; ");
                note(&log);
                let mut e2 = fresh();
                let mut m2 = Model(vec![BTreeMap::new()]);
                if r.one_in(2) {
                    let v = value(&mut r);
                    let n = *r.pick(NAMES);
                    log.push_str(&format!("define({:?}, {:?}) before set_parent; ", n, v));
                    e2.define(n, v.clone());
                    m2.0[0].insert(n.into(), v);
                }
                pool.push((env.clone(), m.clone()));
                e2.set_parent(env);
                m2.0.extend(m.0);
                env = e2;
                m = m2;
            }
            10 => pool.push((env.clone(), m.clone())),
            _ => {
                if !pool.is_empty() {
                    let i = r.below(pool.len());
                    let (e, mm) = pool[i].clone();
                    log.push_str("other scope; ");
                    pool.push((env, m));
                    env = e;
                    m = mm;
                }
            }
        }
        check("step", &env, &m, &log)?;
    }
    for (e, mm) in &pool {
        check("kept", e, mm, &format!("{} an earlier copy", log))?;
    }
    Ok(())
}
fn none() -> u64 {
    0
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "E05", fixed: none, case: e05, what: "random histories of define, undefine, nesting, modules and working directories against a stack of maps", threads: 0 }]
}
