//! The integer functions of the math library against 128-bit arithmetic.
use super::p_arith::value;
use super::p_lib::*;
use super::util::*;
use dune::Expression as X;

const M: &[&str] = &["l-rsh", "a-rsh", "rsh", "lsh", "sum", "product", "fact", "abs", "floor", "ceil", "round", "trunc", "isodd", "iseven", "pow"];
fn int(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, -1, 2, -2, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 32, (1 << 32) - 1, -(1 << 32), 1 << 31]),
        1 => r.next() as i64,
        2 => (r.next() as i64) >> r.below(64),
        3 => 1i64.wrapping_shl(r.below(64) as u32).wrapping_add(r.below(3) as i64 - 1),
        _ => r.below(41) as i64 - 20,
    }
}
fn number(r: &mut Rng) -> X {
    match r.below(12) { 0 | 1 => X::Float(r.below(64) as f64 / 8.0 - 4.0), 2 => value(r, 0), _ => X::Integer(int(r)) }
}
fn refused(n: Option<i128>) -> W {
    match n.and_then(|n| i64::try_from(n).ok()) { Some(n) => Ok(X::Integer(n)), None => Err(None) }
}
/// the running sum (or product) after one more number
fn step(mul: bool, a: &mut (i64, f64), x: &X) -> bool {
    match x {
        X::Integer(i) => match i64::try_from(if mul { a.0 as i128 * *i as i128 } else { a.0 as i128 + *i as i128 }) { Ok(n) => { a.0 = n; true } Err(_) => false },
        X::Float(f) => { a.1 = if mul { a.1 * f } else { a.1 + f }; true }
        _ => false,
    }
}
fn m01(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let name = M[(ix % M.len() as u64) as usize];
    let mut callee = named(&lib(), "math", name)?;
    let (shift, fold) = (name.ends_with("sh"), name == "sum" || name == "product");
    let mut t = oks(if shift {
        vec![number(r), match r.below(5) { 0 => X::Integer(*r.pick(&[63, 64, 65, -1, 0, 1, 32, 31, 1 << 32, (1 << 32) + 1, i64::MAX, i64::MIN])), 1 => number(r), _ => X::Integer(r.below(64) as i64) }]
    } else if fold {
        (0..r.below(5)).map(|_| if r.one_in(3) { let n = r.below(5); X::List((0..n).map(|_| number(r)).collect()) } else { number(r) }).collect()
    } else if name == "pow" {
        vec![if r.one_in(2) { X::Integer(r.below(21) as i64 - 10) } else { number(r) }, match r.below(4) { 0 => number(r), 1 => X::Integer(r.below(64) as i64), _ => X::Integer(r.below(8) as i64) }]
    } else if name == "fact" {
        vec![match r.below(4) { 0 => number(r), _ => X::Integer(r.below(26) as i64 - 2) }]
    } else {
        vec![number(r)]
    });
    // operands that are not data in a list are evaluated, too: keep to what evaluates to itself
    fn plain(x: &X) -> bool { match x { X::Symbol(_) => false, X::List(l) => l.iter().all(plain), _ => true } }
    for x in t.iter_mut() { if matches!(x, Ok(x) if !plain(x)) { *x = Ok(X::Integer(7)); } }
    if name == "fact" && matches!(t[0], Ok(X::Float(_))) { t[0] = Ok(X::Integer(20)); }
    spoil(r, &mut t);
    if r.one_in(12) && !fold {
        let m = r.below(4);
        t = (0..m).map(|i| Ok(t.get(i).and_then(|x| x.clone().ok()).unwrap_or(X::Integer(1)))).collect();
    }
    if name == "fact" && matches!(t.get(0), Some(Ok(X::Float(_)))) { t[0] = Ok(X::Integer(20)); }
    let mut curried = matches!(callee, X::Lambda(..));
    let mut groups = vec![t.len()];
    if curried && (t.len() != 2 || r.one_in(2)) {
        callee = find_builtin(&callee).unwrap_or(callee);
        curried = matches!(callee, X::Lambda(..));
    }
    if curried && t.len() != 2 { return Ok(()); }
    if curried && r.one_in(2) { groups = vec![1, 1]; }
    if name == "pow" && r.one_in(40) && t.len() == 2 {
        // beyond 32 bits an exponent may be refused: only that it is not answered wrongly
        let (b, k) = (r.below(3) as i64 - 1, (1i64 << 32) + r.below(3) as i64);
        let mut env = lib();
        note(format!("pow {} {}", b, k));
        let got = X::Apply(Box::new(callee), vec![X::Integer(b), X::Integer(k)]).eval(&mut env);
        let want = X::Integer(if b == -1 && k % 2 == 0 { 1 } else { b });
        return match got { Ok(x) if x != want => fail(format!("pow {} {}", b, k), format!("{:?}, or an error", want), format!("{:?}", x)), _ => Ok(()) };
    }
    let arity = if shift || name == "pow" { 2 } else { 1 };
    let n = t.len();
    let mut rf = Ref { table: t, trace: vec![], mode: Default::default() };
    check(name, &callee, &groups, &[], &mut rf, |r| {
        let w = (|| -> W {
            if !fold && n != arity { return Err(None); }
            if fold {
                let mul = name == "product";
                let unit = if mul { 1.0 } else { 0.0 };
                let mut a = (mul as i64, unit);
                for k in 0..n {
                    match r.arg(k)? {
                        X::List(l) => for x in &l { if !step(mul, &mut a, x) { return Err(None); } },
                        x => if !step(mul, &mut a, &x) { return Err(None); },
                    }
                }
                return Ok(if a.1 == unit { X::Integer(a.0) } else { X::Float(if mul { a.0 as f64 * a.1 } else { a.0 as f64 + a.1 }) });
            }
            let a = r.arg(0)?;
            if shift {
                let a = match a { X::Integer(i) => i, _ => return Err(None) };
                let k = match r.arg(1)? { X::Integer(i) => i, _ => return Err(None) };
                if !(0..64).contains(&k) { return Err(None); }
                let p = 1i128 << k;
                return Ok(X::Integer(match name {
                    "l-rsh" => ((a as u64 as i128) / p) as i64,
                    "lsh" => (a as i128 * p) as u64 as i64,
                    _ => (a as i128).div_euclid(p) as i64,
                }));
            }
            match (name, a) {
                ("pow", a) => match (a, r.arg(1)?) {
                    (X::Integer(b), X::Integer(k)) => {
                        if k < 0 || k > u32::MAX as i64 { return Err(None); }
                        let mut x: i128 = 1;
                        for i in 0..k {
                            x *= b as i128;
                            if x.unsigned_abs() > 1 << 64 { return Err(None); }
                            if x == 0 || (x.unsigned_abs() == 1 && i > 1) { x = if b == -1 { if k % 2 == 0 { 1 } else { -1 } } else { x }; break; }
                        }
                        refused(Some(x))
                    }
                    (X::Integer(b), X::Float(k)) => Ok(X::Float((b as f64).powf(k))),
                    (X::Float(b), X::Integer(k)) => Ok(X::Float(b.powf(k as f64))),
                    (X::Float(b), X::Float(k)) => Ok(X::Float(b.powf(k))),
                    _ => Err(None),
                },
                ("fact", X::Integer(i)) => {
                    if i < 0 { return Err(None); }
                    let mut x: i128 = 1;
                    for k in 1..=i { x *= k as i128; if x > i64::MAX as i128 { return Err(None); } }
                    refused(Some(x))
                }
                ("abs", X::Integer(i)) => refused(Some((i as i128).abs())),
                ("abs", X::Float(f)) => Ok(X::Float(f.abs())),
                ("floor" | "ceil" | "round" | "trunc", X::Integer(i)) => Ok(X::Integer(i)),
                ("floor", X::Float(f)) => Ok(X::Float(f.floor())),
                ("ceil", X::Float(f)) => Ok(X::Float(f.ceil())),
                ("round", X::Float(f)) => Ok(X::Float(f.round())),
                ("trunc", X::Float(f)) => Ok(X::Float(f.trunc())),
                ("isodd" | "iseven", X::Integer(i)) => Ok(X::Boolean((i & 1 == 1) == (name == "isodd"))),
                ("isodd" | "iseven", X::Float(f)) => Ok(X::Boolean(((f as i64) & 1 == 1) == (name == "isodd"))),
                _ => Err(None),
            }
        })();
        if curried { fails_as_any(w) } else { w }
    }, !curried)
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "M01", fixed: none, case: m01, what: "every integer function of the math library, by its registered name, on random, boundary and power-of-two numbers, wrong types and operand counts, against 128-bit arithmetic", threads: 0 }]
}
