//@ include pre.vspec
//@ include expr.vspec
//@ default vclone
//@ include std.vspec
//@ raw
verus! {
// ---------------------------------------------------------------- order
pub open spec fn icmp(a: int, b: int) -> Option<Ordering> {
    if a < b { Some(Ordering::Less) } else if a == b { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
}
pub open spec fn tcmp(a: Seq<char>, b: Seq<char>) -> Option<Ordering> {
    if a == b { Some(Ordering::Equal) } else if text_lt(a, b) { Some(Ordering::Less) } else { Some(Ordering::Greater) }
}
pub open spec fn bcmp(a: Seq<u8>, b: Seq<u8>) -> Option<Ordering>
    decreases a.len(),
{
    if a.len() == 0 && b.len() == 0 { Some(Ordering::Equal) } else if a.len() == 0 { Some(Ordering::Less) } else if b.len() == 0 { Some(Ordering::Greater) }
    else if a[0] != b[0] { icmp(a[0] as int, b[0] as int) } else { bcmp(a.skip(1), b.skip(1)) }
}
/// the order of values: only like kinds are ordered
pub open spec fn ecmp(a: Expression, b: Expression) -> Option<Ordering>
    decreases a, 1int, 0int
{
    match (a, b) {
        (Expression::Integer(x), Expression::Integer(y)) => icmp(x as int, y as int),
        (Expression::Float(x), Expression::Float(y)) => fcmp(x, y),
        (Expression::String(x), Expression::String(y)) => tcmp(x@, y@),
        (Expression::Bytes(x), Expression::Bytes(y)) => bcmp(x@, y@),
        (Expression::List(x), Expression::List(y)) => lcmp(x, y, 0),
        (Expression::Map(x), Expression::Map(y)) => mcmp(x, y, 0),
        _ => None,
    }
}
/// lists from position i on, lexicographically
pub open spec fn lcmp(a: Vec<Expression>, b: Vec<Expression>, i: nat) -> Option<Ordering>
    decreases a, 0int, a@.len() - i
{
    if i >= a@.len() && i >= b@.len() { Some(Ordering::Equal) } else if i >= a@.len() { Some(Ordering::Less) } else if i >= b@.len() { Some(Ordering::Greater) }
    else {
        match ecmp(a@[i as int], b@[i as int]) {
            Some(Ordering::Equal) => lcmp(a, b, i + 1),
            o => o,
        }
    }
}
#[via_fn]
proof fn mcmp_dec(a: BTreeMap<String, Expression>, b: BTreeMap<String, Expression>, i: nat) {
    if i < a.ents().len() { axe::ax_map_dec(a, i as int); }
}
/// maps from entry i on, lexicographically by key, then value
pub open spec fn mcmp(a: BTreeMap<String, Expression>, b: BTreeMap<String, Expression>, i: nat) -> Option<Ordering>
    decreases a, 0int, a.ents().len() - i via mcmp_dec
{
    if i >= a.ents().len() && i >= b.ents().len() { Some(Ordering::Equal) } else if i >= a.ents().len() { Some(Ordering::Less) } else if i >= b.ents().len() { Some(Ordering::Greater) }
    else {
        match tcmp(a.ents()[i as int].0@, b.ents()[i as int].0@) {
            Some(Ordering::Equal) => match ecmp(a.ents()[i as int].1, b.ents()[i as int].1) {
                Some(Ordering::Equal) => mcmp(a, b, i + 1),
                o => o,
            },
            o => o,
        }
    }
}
pub trait VxCmp { spec fn cmp_spec(&self, o: &Self) -> Option<Ordering>; fn vx_partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r == self.cmp_spec(o); }
impl VxCmp for i64 {
    open spec fn cmp_spec(&self, o: &i64) -> Option<Ordering> { icmp(*self as int, *o as int) }
    #[verifier::external_body]
    fn vx_partial_cmp(&self, o: &i64) -> (r: Option<Ordering>) { unimplemented!() }
}
impl VxCmp for f64 {
    open spec fn cmp_spec(&self, o: &f64) -> Option<Ordering> { fcmp(*self, *o) }
    #[verifier::external_body]
    fn vx_partial_cmp(&self, o: &f64) -> (r: Option<Ordering>) { unimplemented!() }
}
impl VxCmp for String {
    open spec fn cmp_spec(&self, o: &String) -> Option<Ordering> { tcmp(self@, o@) }
    #[verifier::external_body]
    fn vx_partial_cmp(&self, o: &String) -> (r: Option<Ordering>) { unimplemented!() }
}
impl VxCmp for Vec<u8> {
    open spec fn cmp_spec(&self, o: &Vec<u8>) -> Option<Ordering> { bcmp(self@, o@) }
    #[verifier::external_body]
    fn vx_partial_cmp(&self, o: &Vec<u8>) -> (r: Option<Ordering>) { unimplemented!() }
}
/// std: vectors and maps compare lexicographically by their elements' partial_cmp, which is the function verified below
impl VxCmp for Vec<Expression> {
    open spec fn cmp_spec(&self, o: &Vec<Expression>) -> Option<Ordering> { lcmp(*self, *o, 0) }
    #[verifier::external_body]
    fn vx_partial_cmp(&self, o: &Vec<Expression>) -> (r: Option<Ordering>) { unimplemented!() }
}
impl VxCmp for BTreeMap<String, Expression> {
    open spec fn cmp_spec(&self, o: &BTreeMap<String, Expression>) -> Option<Ordering> { mcmp(*self, *o, 0) }
    #[verifier::external_body]
    fn vx_partial_cmp(&self, o: &BTreeMap<String, Expression>) -> (r: Option<Ordering>) { unimplemented!() }
}
impl VxInto<Expression> for Expression {
    open spec fn conv(self) -> Expression { self }
    fn vx_into(self) -> (r: Expression) { self }
}

// ---------------------------------------------------------------- what the operators mean
pub open spec fn int_or_none(x: Option<i64>) -> Expression { match x { Some(i) => Expression::Integer(i), None => Expression::None } }
/// numeric operands: integers exactly, a float as soon as one operand is one
pub open spec fn is_num(e: Expression) -> bool { e is Integer || e is Float }
pub open spec fn as_float(e: Expression) -> f64 { match e { Expression::Integer(i) => i2f(i), Expression::Float(f) => f, _ => arbitrary() } }
pub open spec fn both_int(a: Expression, b: Expression) -> bool { a is Integer && b is Integer }
pub open spec fn mixed(a: Expression, b: Expression) -> bool { is_num(a) && is_num(b) && !both_int(a, b) }
} // verus!
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axe::ax_map_ext, axo::ax_list_len, axo::ax_strlen, axe::ax_map_ents};
//@ end
//@ file src/expr.rs
//@ fn Expression::add@Add tags=A01,A02
    ensures
@{A01}        both_int(self, other) ==> r == int_or_none(exact(self->Integer_0 + other->Integer_0)),
@{A01}        mixed(self, other) ==> r == Expression::Float(fadd(as_float(self), as_float(other))),
@{A01}        !(is_num(self) && is_num(other)) && !(self is String && other is String) && !(self is Bytes && other is Bytes) && !(self is List && other is List) ==> r is None,
@{A02}        self is String && other is String ==> r is String && r->String_0@ == self->String_0@ + other->String_0@,
@{A02}        self is Bytes && other is Bytes ==> r is Bytes && r->Bytes_0@ == self->Bytes_0@ + other->Bytes_0@,
@{A02}        self is List && other is List ==> r is List && r->List_0@ == self->List_0@ + other->List_0@,
//@ fn Expression::sub@Sub tags=A01,A02
    ensures
@{A01}        both_int(self, other) ==> r == int_or_none(exact(self->Integer_0 - other->Integer_0)),
@{A01}        mixed(self, other) ==> r == Expression::Float(fsub(as_float(self), as_float(other))),
@{A01}        !(is_num(self) && is_num(other)) && !(self is Map && other is String) && !(self is List && other is Integer) ==> r is None,
@{A02}        self is Map && other is String ==> r == (if self->Map_0@.contains_key(other->String_0@) { self->Map_0@[other->String_0@] } else { Expression::None }),
@{A02}        self is List && other is Integer ==> r == (if 0 <= other->Integer_0 < self->List_0@.len() { self->List_0@[other->Integer_0 as int] } else { Expression::None }),
//@ fn Expression::neg@Neg tags=A01
    ensures
@{A01}        r == (match self {
@{A01}            Expression::Integer(n) => int_or_none(exact(-n)),
@{A01}            Expression::Boolean(b) => Expression::Boolean(!b),
@{A01}            Expression::Float(f) => Expression::Float(fneg(f)),
@{A01}            _ => Expression::None,
@{A01}        }),
//@ fn Expression::mul@Mul loops=1 tags=A01,A02
    ensures
@{A01}        both_int(self, other) ==> r == int_or_none(exact(self->Integer_0 * other->Integer_0)),
@{A01}        mixed(self, other) ==> r == Expression::Float(fmul(as_float(self), as_float(other))),
@{A01}        !(is_num(self) && is_num(other)) && !((self is String || self is List) && other is Integer) && !((other is String || other is List) && self is Integer) ==> r is None,
@{A02}        self is String && other is Integer ==> r is String && r->String_0@ == rep(self->String_0@, nn(other->Integer_0)),
@{A02}        other is String && self is Integer ==> r is String && r->String_0@ == rep(other->String_0@, nn(self->Integer_0)),
@{A02}        self is List && other is Integer ==> r is List && r->List_0@ == rep(self->List_0@, nn(other->Integer_0)),
@{A02}        other is List && self is Integer ==> r is List && r->List_0@ == rep(other->List_0@, nn(self->Integer_0)),
//@ loop 0
@{A02}    invariant result@ + rep(m@, vx_it1@.len()) == rep(m@, nn(n)),
@{A02}    ensures result@ == rep(m@, nn(n)),
    decreases vx_it1@.len(),
//@ fn Expression::div@Div tags=A01
    ensures
@{A01}        both_int(self, other) ==> r == (if other->Integer_0 == 0 { Expression::None } else { int_or_none(exact(tdiv(self->Integer_0 as int, other->Integer_0 as int))) }),
@{A01}        mixed(self, other) ==> r == Expression::Float(fdiv(as_float(self), as_float(other))),
@{A01}        !(is_num(self) && is_num(other)) ==> r is None,
//@ fn Expression::rem@Rem tags=A01
    ensures
@{A01}        both_int(self, other) && other->Integer_0 == 0 ==> r is None,
@{A01}        both_int(self, other) && other->Integer_0 != 0 && fits(tdiv(self->Integer_0 as int, other->Integer_0 as int)) ==> r == int_or_none(exact(trem(self->Integer_0 as int, other->Integer_0 as int))),
@{A01}        both_int(self, other) && other->Integer_0 != 0 && !(r is None) ==> r == int_or_none(exact(trem(self->Integer_0 as int, other->Integer_0 as int))),
@{A01}        !both_int(self, other) && !mixed(self, other) ==> r is None,
//@ fn Expression::index@Index<T> tags=A02
    ensures
@{A02}        *r == (match (*self, idx.conv()) {
@{A02}            (Expression::Map(m), Expression::Symbol(k)) => if m@.contains_key(k@) { m@[k@] } else { Expression::None },
@{A02}            (Expression::Map(m), Expression::String(k)) => if m@.contains_key(k@) { m@[k@] } else { Expression::None },
@{A02}            (Expression::List(l), Expression::Integer(n)) => if 0 <= n < l@.len() { l@[n as int] } else { Expression::None },
@{A02}            _ => Expression::None,
@{A02}        }),
//@ fn Expression::is_truthy tags=A03
    ensures r == truthy(*self),
//@ fn Expression::partial_cmp@PartialOrd tags=A03
    ensures r == ecmp(*self, *other),
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
