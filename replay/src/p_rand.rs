//! What is drawn at random: in range, an element, a permutation; and anything there is to draw comes out.
use super::p_arith::same;
use super::p_lib::*;
use super::util::*;
use dune::Expression as X;

fn draw(callee: &X, args: Vec<X>) -> Result<X, String> {
    X::Apply(Box::new(callee.clone()), args).eval(&mut lib()).map_err(|e| e.to_string())
}
fn n01(seed: u64, ix: u64) -> Res {
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let name = ["int", "choose", "shuffle"][(ix % 3) as usize];
    let callee = named(&lib(), "rand", name)?;
    let arity = if name == "int" { 2 } else { 1 };
    if r.one_in(6) {
        // an operand that fails, or a wrong number of them
        let n = if r.one_in(2) { arity } else { r.below(4) };
        let k = r.below(n.max(1));
        let mut t = oks((0..n).map(|i| X::Integer(1 + i as i64)).collect());
        if k < n { t[k] = Err(format!("operand {} failed", k)); }
        let mut rf = Ref { table: t, trace: vec![], mode: Mode::default() };
        return check(name, &callee, &[n], &[], &mut rf, |r| {
            if n != arity { return Err(None); }
            for i in 0..n { r.arg(i)?; }
            Err(None)
        }, true);
    }
    let (args, all): (Vec<X>, Option<Vec<X>>) = match name {
        "int" => {
            let l = match r.below(5) { 0 => i64::MIN, 1 => i64::MAX - r.below(3) as i64, 2 => r.next() as i64, _ => r.below(20) as i64 - 10 };
            let h = match r.below(6) { 0 => i64::MAX, 1 => i64::MIN, 2 => r.next() as i64, _ => l.saturating_add(r.below(5) as i64 - 1) };
            let size = h as i128 - l as i128;
            (vec![X::Integer(l), X::Integer(h)], if size <= 0 { None } else if size <= 4 { Some((l..h).map(X::Integer).collect()) } else { Some(vec![]) })
        }
        "choose" => { let l: Vec<X> = (0..r.below(5)).map(|_| data(r, 1)).collect(); (vec![X::List(l.clone())], if l.is_empty() { None } else { Some(l) }) }
        _ => { let l: Vec<X> = (0..r.below(4)).map(|i| if r.one_in(3) { X::Integer(7) } else { X::Integer(i as i64) }).collect(); (vec![X::List(l.clone())], Some(permutations(&l))) }
    };
    let args = if r.one_in(12) { args.iter().map(|_| X::String("no".into())).collect() } else { args };
    let what = format!("rand@{} {:?}", name, args);
    note(&what);
    if matches!(args[0], X::String(_)) {
        return match draw(&callee, args) { Err(_) => Ok(()), x => fail(what, "an error", format!("{:?}", x)) };
    }
    let all = match all {
        None => return match draw(&callee, args) { Err(_) => Ok(()), x => fail(what, "an error", format!("{:?}", x)) },
        Some(a) => a,
    };
    let n = if all.is_empty() { 20 } else { 600 };
    let mut seen = vec![false; all.len()];
    for _ in 0..n {
        let x = draw(&callee, args.clone());
        if all.is_empty() {
            match (&x, &args[0], &args[1]) {
                (Ok(X::Integer(n)), X::Integer(l), X::Integer(h)) if l <= n && n < h => {}
                _ => return fail(what, "an integer in the range", format!("{:?}", x)),
            }
            continue;
        }
        let mut hit = false;
        for (i, w) in all.iter().enumerate() {
            if matches!(&x, Ok(x) if same(x, w)) { seen[i] = true; hit = true; }
        }
        if !hit { return fail(what, format!("one of {:?}", all), format!("{:?}", x)); }
        if seen.iter().all(|x| *x) { break; }
    }
    if let Some(i) = seen.iter().position(|x| !*x) {
        return fail(what, format!("now and then {:?}", all[i]), format!("it never came in {} tries", n));
    }
    Ok(())
}
fn permutations(l: &[X]) -> Vec<X> {
    fn go(l: &[X]) -> Vec<Vec<X>> {
        if l.is_empty() { return vec![vec![]]; }
        let mut o = vec![];
        for i in 0..l.len() {
            let mut rest = l.to_vec();
            let x = rest.remove(i);
            for mut p in go(&rest) { p.insert(0, x.clone()); o.push(p); }
        }
        o
    }
    go(l).into_iter().map(X::List).collect()
}
fn big(seed: u64, ix: u64) -> Res {
    // a longer list: a permutation of it
    let mut rng = Rng::new(seed, ix);
    let r = &mut rng;
    let l: Vec<i64> = (0..r.below(60)).map(|_| r.below(9) as i64).collect();
    let callee = named(&lib(), "rand", "shuffle")?;
    let what = format!("rand@shuffle {:?}", l);
    note(&what);
    let x = draw(&callee, vec![X::List(l.iter().map(|i| X::Integer(*i)).collect())]);
    let mut got: Vec<i64> = match &x { Ok(X::List(v)) => v.iter().map(|x| if let X::Integer(i) = x { *i } else { -1 }).collect(), _ => vec![-1] };
    let mut want = l;
    got.sort();
    want.sort();
    if got == want { Ok(()) } else { fail(what, "a permutation of it", format!("{:?}", x)) }
}
fn case(seed: u64, ix: u64) -> Res {
    if ix % 4 == 3 { big(seed, ix) } else { n01(seed, ix) }
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "N01", fixed: none, case, what: "random draws, and that whatever there is to draw comes out", threads: 8 }]
}
