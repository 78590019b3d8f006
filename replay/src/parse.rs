//! Reference parser over the non-blank tokens of a script.
//! Rules return the next position and a value, or Err(fatal).
use dune::{Environment, Expression as E, TokenKind as K};
use std::collections::BTreeMap;

pub struct P {
    pub t: Vec<(K, String)>,
}
type R<T> = Result<(usize, T), bool>;
fn bx(e: E) -> Box<E> {
    Box::new(e)
}
fn sym(s: &str) -> E {
    E::Symbol(s.to_string())
}
fn fatal<T>(r: R<T>) -> R<T> {
    r.map_err(|_| true)
}
/// the value of a string literal whose escapes are all good
pub fn unquote(lit: &str) -> String {
    let c: Vec<char> = lit.chars().collect();
    let mut o = String::new();
    let mut i = 1;
    while i < c.len() && c[i] != '"' {
        if c[i] == '\\' {
            i += 1;
            match c[i] {
                'b' => o.push('\u{8}'),
                'f' => o.push('\u{c}'),
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                'u' => {
                    let mut v = 0;
                    i += 2;
                    while c[i] != '}' {
                        v = v * 16 + c[i].to_digit(16).unwrap();
                        i += 1;
                    }
                    o.push(char::from_u32(v).unwrap());
                }
                x => o.push(x),
            }
        } else {
            o.push(c[i]);
        }
        i += 1;
    }
    o
}
impl P {
    fn is(&self, i: usize, s: &str) -> bool {
        self.t.get(i).map_or(false, |t| t.1 == s)
    }
    fn kind(&self, i: usize, k: K) -> bool {
        self.t.get(i).map_or(false, |t| t.0 == k)
    }
    fn text(&self, i: usize) -> String {
        self.t[i].1.clone()
    }
    fn need(&self, i: usize, s: &str) -> R<()> {
        if self.is(i, s) { Ok((i + 1, ())) } else { Err(false) }
    }
    fn start_ok(&self, i: usize) -> Result<(), bool> {
        if self.kind(i, K::Punctuation) && [";", ",", "=", "]", ")", "}", "|"].iter().any(|p| self.is(i, p)) { Err(false) } else { Ok(()) }
    }
    fn name(&self, i: usize) -> R<String> {
        if self.kind(i, K::Symbol) { Ok((i + 1, self.text(i))) } else { Err(false) }
    }
    fn op(&self, i: usize) -> R<String> {
        if self.kind(i, K::Operator) { Ok((i + 1, self.text(i))) } else { Err(false) }
    }
    fn name_or_op(&self, i: usize) -> R<String> {
        self.name(i).or_else(|_| self.op(i))
    }
    pub fn script(&self) -> Result<E, bool> {
        let (i, e) = self.statements(0)?;
        if i == self.t.len() { Ok(e) } else { Err(false) }
    }
    fn statement(&self, i: usize) -> R<E> {
        let (j, e) = self.expr(i)?;
        if self.is(j, ";") {
            return Ok((j + 1, e));
        }
        match e {
            E::For(..) | E::If(..) => Ok((j, e)),
            _ => Err(false),
        }
    }
    fn statements(&self, mut i: usize) -> R<E> {
        let mut es = vec![];
        loop {
            match self.statement(i) {
                Ok((j, e)) => {
                    es.push(e);
                    i = j;
                }
                Err(false) => break,
                Err(true) => return Err(true),
            }
        }
        match self.expr(i) {
            Ok((j, e)) => {
                es.push(e);
                i = if self.is(j, ";") { j + 1 } else { j };
            }
            Err(false) => {}
            Err(true) => return Err(true),
        }
        Ok((i, E::Do(es)))
    }
    /// pipes and redirections
    pub fn expr(&self, i: usize) -> R<E> {
        self.start_ok(i)?;
        let (mut i, head) = self.seven(i)?;
        let mut args = vec![head];
        let mut any = false;
        while ["|", ">>>", ">>", "<<"].iter().any(|p| self.is(i, p)) {
            let op = self.text(i);
            let (j, item) = match self.seven(i + 1) {
                Ok(x) => x,
                Err(false) => break,
                Err(true) => return Err(true),
            };
            any = true;
            i = j;
            match op.as_str() {
                "|" => args.push(item),
                "<<" => {
                    let n = args.len() - 1;
                    args.insert(n, E::Apply(bx(sym("<<")), vec![item]));
                }
                _ => args.push(E::Apply(bx(sym(&op)), vec![item])),
            }
        }
        if !any {
            return Ok((i, args.pop().unwrap()));
        }
        Ok((i, E::Group(bx(E::Apply(bx(sym("|")), args)))))
    }
    fn seven(&self, i: usize) -> R<E> {
        self.start_ok(i)?;
        let alts: [fn(&P, usize) -> R<E>; 7] = [P::for_loop, P::if_else, P::assign, P::callable, P::apply, P::apply_op, P::six];
        for a in alts {
            match a(self, i) {
                Err(false) => {}
                r => return r,
            }
        }
        Err(false)
    }
    fn assign(&self, i: usize) -> R<E> {
        let (i, _) = self.need(i, "let")?;
        let (i, n) = fatal(self.name_or_op(i))?;
        let (i, _) = fatal(self.need(i, "="))?;
        let (i, e) = self.expr(i)?;
        Ok((i, E::Assign(n, bx(e))))
    }
    fn for_loop(&self, i: usize) -> R<E> {
        let (i, _) = self.need(i, "for")?;
        let (i, n) = fatal(self.name(i))?;
        let (i, _) = fatal(self.need(i, "in"))?;
        let list = match self.range(i) {
            Err(false) => self.four(i),
            r => r,
        };
        let (i, list) = fatal(list)?;
        let (i, body) = fatal(self.block(i))?;
        Ok((i, E::For(n, bx(list), bx(body))))
    }
    fn if_else(&self, i: usize) -> R<E> {
        let (i, _) = self.need(i, "if")?;
        let (i, c) = fatal(self.six(i))?;
        let (i, t) = fatal(self.four(i))?;
        if self.is(i, "else") {
            let r = match self.if_else(i + 1) {
                Err(false) => self.four(i + 1),
                r => r,
            };
            match r {
                Ok((j, e)) => return Ok((j, E::If(bx(c), bx(t), bx(E::Group(bx(e)))))),
                Err(true) => return Err(true),
                Err(false) => {}
            }
        }
        Ok((i, E::If(bx(c), bx(t), bx(E::None))))
    }
    fn callable(&self, i: usize) -> R<E> {
        let (i, p) = self.name(i)?;
        let m = self.is(i, "~>");
        if !m && !self.is(i, "->") {
            return Err(false);
        }
        let (i, b) = fatal(self.expr(i + 1))?;
        Ok((i, if m { E::Macro(p, bx(b)) } else { E::Lambda(p, bx(b), Environment::new()) }))
    }
    fn block(&self, i: usize) -> R<E> {
        let (i, _) = self.need(i, "{")?;
        let (i, e) = self.statements(i)?;
        let (i, _) = fatal(self.need(i, "}"))?;
        Ok((i, e))
    }
    fn args(&self, mut i: usize) -> R<Vec<E>> {
        let mut v = vec![];
        loop {
            match self.five(i) {
                Ok((j, e)) => {
                    v.push(e);
                    i = j;
                }
                Err(false) => return Ok((i, v)),
                Err(true) => return Err(true),
            }
        }
    }
    fn apply(&self, i: usize) -> R<E> {
        let (i, f) = match self.two(i) {
            Err(false) => {
                let (i, o) = self.op(i)?;
                (i, E::Symbol(o))
            }
            r => r?,
        };
        let (i, a) = self.args(i)?;
        if a.is_empty() { Err(false) } else { Ok((i, E::Apply(bx(f), a))) }
    }
    fn apply_op(&self, i: usize) -> R<E> {
        let (i, f) = self.op(i)?;
        let (i, a) = self.args(i)?;
        Ok((i, if a.is_empty() { E::Symbol(f) } else { E::Apply(bx(E::Symbol(f)), a) }))
    }
    fn left(&self, i: usize, ops: &[&str], next: fn(&P, usize) -> R<E>) -> R<(E, bool)> {
        let (mut i, mut e) = next(self, i)?;
        let mut any = false;
        while ops.iter().any(|o| self.is(i, o)) {
            match next(self, i + 1) {
                Ok((j, r)) => {
                    e = E::Group(bx(E::Apply(bx(E::Symbol(self.text(i))), vec![e, r])));
                    i = j;
                    any = true;
                }
                Err(false) => break,
                Err(true) => return Err(true),
            }
        }
        Ok((i, (e, any)))
    }
    fn six(&self, i: usize) -> R<E> {
        self.start_ok(i)?;
        self.left(i, &["&&", "||"], P::five).map(|(i, (e, _))| (i, e))
    }
    fn not(&self, i: usize) -> R<E> {
        let (i, _) = self.need(i, "!")?;
        let (i, e) = self.four(i)?;
        Ok((i, E::Apply(bx(sym("!")), vec![e])))
    }
    fn five(&self, i: usize) -> R<E> {
        self.start_ok(i)?;
        if let Ok(x) = self.not(i) {
            return Ok(x);
        }
        let (i, (e, any)) = self.left(i, &["==", "!=", ">=", "<=", ">", "<"], P::four)?;
        if !any && self.is(i, "to") {
            let (j, b) = fatal(self.four(i + 1))?;
            return Ok((j, E::Apply(bx(sym("to")), vec![e, b])));
        }
        Ok((i, e))
    }
    fn range(&self, i: usize) -> R<E> {
        self.start_ok(i)?;
        let (i, a) = self.four(i)?;
        let (i, _) = self.need(i, "to")?;
        let (i, b) = fatal(self.four(i))?;
        Ok((i, E::Apply(bx(sym("to")), vec![a, b])))
    }
    fn four(&self, i: usize) -> R<E> {
        self.start_ok(i)?;
        self.left(i, &["+", "-"], P::three).map(|(i, (e, _))| (i, e))
    }
    fn three(&self, i: usize) -> R<E> {
        self.start_ok(i)?;
        self.left(i, &["*", "//", "%"], P::two).map(|(i, (e, _))| (i, e))
    }
    fn two(&self, i: usize) -> R<E> {
        self.start_ok(i)?;
        let (mut i, h) = self.one(i)?;
        let mut v = vec![h];
        while self.is(i, "@") {
            let r = match self.one(i + 1) {
                Err(false) => self.op(i + 1).map(|(j, o)| (j, E::Symbol(o))),
                r => r,
            };
            match r {
                Ok((j, e)) => {
                    v.push(e);
                    i = j;
                }
                Err(false) => break,
                Err(true) => return Err(true),
            }
        }
        Ok((i, if v.len() == 1 { v.pop().unwrap() } else { E::Apply(bx(sym("@")), v) }))
    }
    fn one(&self, i: usize) -> R<E> {
        let alts: [fn(&P, usize) -> R<E>; 6] = [P::group, P::quote, P::map, P::block, P::list, P::atom];
        for a in alts {
            match a(self, i) {
                Err(false) => {}
                r => return r,
            }
        }
        Err(false)
    }
    fn group(&self, i: usize) -> R<E> {
        let (i, _) = self.need(i, "(")?;
        let (i, e) = self.expr(i)?;
        if i == self.t.len() {
            return Ok((i, E::Group(bx(e))));
        }
        let (i, _) = fatal(self.need(i, ")"))?;
        Ok((i, E::Group(bx(e))))
    }
    fn quote(&self, i: usize) -> R<E> {
        let (i, _) = self.need(i, "'")?;
        let (i, e) = self.two(i)?;
        Ok((i, E::Quote(bx(e))))
    }
    fn pair(&self, i: usize) -> R<(String, E)> {
        let (i, k) = self.name_or_op(i)?;
        let (i, _) = self.need(i, "=")?;
        let (i, v) = self.expr(i)?;
        Ok((i, (k, v)))
    }
    fn separated<T>(&self, mut i: usize, item: impl Fn(usize) -> R<T>) -> R<Vec<T>> {
        let mut v = vec![];
        match item(i) {
            Ok((j, x)) => {
                v.push(x);
                i = j;
            }
            Err(false) => return Ok((i, v)),
            Err(true) => return Err(true),
        }
        while self.is(i, ",") {
            match item(i + 1) {
                Ok((j, x)) => {
                    v.push(x);
                    i = j;
                }
                Err(false) => break,
                Err(true) => return Err(true),
            }
        }
        Ok((i, v))
    }
    fn map(&self, i: usize) -> R<E> {
        let (i, _) = self.need(i, "{")?;
        let (i, kv) = self.separated(i, |i| self.pair(i))?;
        if !self.is(i, "}") {
            return Err(!kv.is_empty());
        }
        let mut m = BTreeMap::new();
        for (k, v) in kv {
            m.insert(k, v);
        }
        Ok((i + 1, E::Map(m)))
    }
    fn list(&self, i: usize) -> R<E> {
        let (i, _) = self.need(i, "[")?;
        let (i, v) = self.separated(i, |i| self.expr(i))?;
        let (i, _) = fatal(self.need(i, "]"))?;
        Ok((i, E::List(v)))
    }
    fn atom(&self, i: usize) -> R<E> {
        if i >= self.t.len() {
            return Err(false);
        }
        let (k, s) = self.t[i].clone();
        if k == K::BooleanLiteral {
            return Ok((i + 1, E::Boolean(s == "True")));
        }
        if s == "None" {
            return Ok((i + 1, E::None));
        }
        if s == "(" && self.is(i + 1, ")") {
            return Ok((i + 2, E::None));
        }
        match k {
            K::FloatLiteral => Ok((i + 1, E::Float(s.parse().map_err(|_| true)?))),
            K::IntegerLiteral => {
                // exact: parse with 128 bits or refuse
                let digits = s.trim_start_matches('-');
                if digits.len() > 30 {
                    return Err(true);
                }
                let n: i128 = s.parse().map_err(|_| true)?;
                if n < i64::MIN as i128 || n > i64::MAX as i128 { Err(true) } else { Ok((i + 1, E::Integer(n as i64))) }
            }
            K::StringLiteral => Ok((i + 1, E::String(unquote(&s)))),
            K::Symbol => Ok((i + 1, E::Symbol(s))),
            _ => Err(false),
        }
    }
}
