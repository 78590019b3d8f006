//@ include lib.vspec
//@ include argc.vspec
//@ include digit.vspec
//@ include numtext.vspec
//@ default vclone ctx
//@ raw
verus! {
// ---------------------------------------------------------------- the parsers of other formats
impl VxNew for BTreeMap<String, Expression> { open spec fn fresh(&self) -> bool { self@ == Map::<Seq<char>, Expression>::empty() } }
#[verifier::external_body]
pub struct Number { p: u8 }
pub uninterp spec fn number_of(n: Number) -> f64;
impl VxInto<f64> for Number {
    open spec fn conv(self) -> f64 { number_of(self) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: f64) { unimplemented!() }
}
#[verifier::external_body]
pub struct Short { p: u8 }
pub uninterp spec fn short_of(n: Short) -> Seq<char>;
impl VxToString for Short {
    open spec fn shown(&self) -> Seq<char> { short_of(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
/// the entries of an object, with different keys
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Object<T> { p: core::marker::PhantomData<T> }
impl<T> Object<T> { pub uninterp spec fn ents(&self) -> Seq<(String, T)>; }
pub enum JsonValue { Null, Boolean(bool), Number(Number), Short(Short), String(String), Array(Vec<JsonValue>), Object(Object<JsonValue>) }
impl VxClone for JsonValue {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
impl Object<JsonValue> {
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: VxIt<(&str, &JsonValue)>)
        ensures r@.len() == self.ents().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == self.ents()[i].0@ && *r@[i].1 == self.ents()[i].1,
    { unimplemented!() }
}
pub mod toml {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct Datetime { p: u8 }
    pub uninterp spec fn date_of(n: Datetime) -> Seq<char>;
    impl VxToString for Datetime {
        open spec fn shown(&self) -> Seq<char> { date_of(*self) }
        #[verifier::external_body]
        fn vx_to_string(&self) -> (r: String) { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Table<T> { p: core::marker::PhantomData<T> }
    impl<T> Table<T> { pub uninterp spec fn ents(&self) -> Seq<(String, T)>; }
    pub enum Value { String(String), Integer(i64), Float(f64), Boolean(bool), Datetime(Datetime), Array(Vec<Value>), Table(Table<Value>) }
    impl Table<Value> {
        #[verifier::external_body]
        pub fn vx_iter(&self) -> (r: VxIt<(&String, &Value)>)
            ensures r@.len() == self.ents().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self.ents()[i].0 && *r@[i].1 == self.ents()[i].1,
        { unimplemented!() }
    }
    impl VxClone for Value {
        #[verifier::external_body]
        fn vx_clone(&self) -> (r: Self) { unimplemented!() }
    }
    }
}
pub mod axd {
    use super::*;
    verus! {
    /// json and toml: the keys of an object are different
    pub broadcast axiom fn ax_object(a: Object<JsonValue>, i: int, j: int) ensures 0 <= i < j < a.ents().len() ==> (#[trigger] a.ents()[i]).0@ != (#[trigger] a.ents()[j]).0@;
    /// a value is larger than the values in it
    pub broadcast axiom fn ax_object_dec(a: Object<JsonValue>, i: int) ensures 0 <= i < a.ents().len() ==> (decreases_to!(a => (#[trigger] a.ents()[i]).1));
    pub broadcast axiom fn ax_table_dec(a: toml::Table<toml::Value>, i: int) ensures 0 <= i < a.ents().len() ==> (decreases_to!(a => (#[trigger] a.ents()[i]).1));
    pub broadcast axiom fn ax_table(a: toml::Table<toml::Value>, i: int, j: int) ensures 0 <= i < j < a.ents().len() ==> (#[trigger] a.ents()[i]).0@ != (#[trigger] a.ents()[j]).0@;
    }
}
/// what a text of JSON or TOML stands for, if it is one
pub uninterp spec fn json_of(s: Seq<char>) -> Option<JsonValue>;
pub uninterp spec fn toml_of(s: Seq<char>) -> Option<toml::Value>;
impl VxFromText for toml::Value { open spec fn from_text(s: Seq<char>) -> Option<toml::Value> { toml_of(s) } }
impl VxParse for String {
    #[verifier::external_body]
    fn vx_parse<T: VxFromText>(&self) -> (r: Result<T, VxParseError>) { unimplemented!() }
}
pub mod json {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct Error { p: u8 }
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: Result<JsonValue, Error>)
        ensures match r { Ok(v) => json_of(s@) == Some(v), Err(_) => json_of(s@) is None },
    { unimplemented!() }
    }
}
pub mod nom { use super::*; verus! { pub enum Err<E> { Incomplete(u8), Error(E), Failure(E) } } }
/// parse_script: proved elsewhere (P01 to P03)
pub uninterp spec fn script_of(s: Seq<char>) -> Result<Expression, nom::Err<SyntaxError>>;
#[verifier::external_body]
pub fn parse_script(s: &str) -> (r: Result<Expression, nom::Err<SyntaxError>>)
    ensures r == script_of(s@),
{ unimplemented!() }
impl SyntaxError {
    #[verifier::external_body]
    #[allow(non_upper_case_globals)]
    pub const InternalError: SyntaxError = SyntaxError { p: 0 };
}
pub uninterp spec fn str_of(s: Seq<char>) -> Str;
impl VxInto<Str> for String {
    open spec fn conv(self) -> Str { str_of(self@) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Str) { unimplemented!() }
}
/// e is the value v: null is None, a number a float, an array the list of its elements' values,
/// an object the map from its keys to their values
pub open spec fn from_json(v: JsonValue, e: Expression) -> bool
    decreases v via json_dec
{
    match v {
        JsonValue::Null => e == Expression::None,
        JsonValue::Boolean(b) => e == Expression::Boolean(b),
        JsonValue::Number(n) => e == Expression::Float(number_of(n)),
        JsonValue::Short(s) => e is String && e->String_0@ == short_of(s),
        JsonValue::String(s) => e == Expression::String(s),
        JsonValue::Array(a) => e is List && e->List_0@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> from_json(#[trigger] a@[i], e->List_0@[i]),
        JsonValue::Object(o) => {
            &&& e is Map
            &&& forall|i: int| 0 <= i < o.ents().len() ==> e->Map_0@.contains_key((#[trigger] o.ents()[i]).0@) && from_json(o.ents()[i].1, e->Map_0@[o.ents()[i].0@])
            &&& forall|k: Seq<char>| #[trigger] e->Map_0@.contains_key(k) ==> exists|i: int| 0 <= i < o.ents().len() && (#[trigger] o.ents()[i]).0@ == k
        },
    }
}
#[via_fn]
proof fn json_dec(v: JsonValue, e: Expression) { broadcast use axd::ax_object_dec; }
pub open spec fn from_toml(v: toml::Value, e: Expression) -> bool
    decreases v via toml_dec
{
    match v {
        toml::Value::Boolean(b) => e == Expression::Boolean(b),
        toml::Value::Integer(n) => e == Expression::Integer(n),
        toml::Value::Float(n) => e == Expression::Float(n),
        toml::Value::Datetime(s) => e is String && e->String_0@ == toml::date_of(s),
        toml::Value::String(s) => e == Expression::String(s),
        toml::Value::Array(a) => e is List && e->List_0@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> from_toml(#[trigger] a@[i], e->List_0@[i]),
        toml::Value::Table(o) => {
            &&& e is Map
            &&& forall|i: int| 0 <= i < o.ents().len() ==> e->Map_0@.contains_key((#[trigger] o.ents()[i]).0@) && from_toml(o.ents()[i].1, e->Map_0@[o.ents()[i].0@])
            &&& forall|k: Seq<char>| #[trigger] e->Map_0@.contains_key(k) ==> exists|i: int| 0 <= i < o.ents().len() && (#[trigger] o.ents()[i]).0@ == k
        },
    }
}
#[via_fn]
proof fn toml_dec(v: toml::Value, e: Expression) { broadcast use axd::ax_table_dec; }
} // verus!
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axd::ax_object, axd::ax_table, axd::ax_object_dec, axd::ax_table_dec};
type R = Result<Expression, Error>;
/// one operand exactly, and the answer by its text
pub open spec fn of_text(r: R, a: Seq<Expression>, e: Environment, want: spec_fn(Seq<char>, R) -> bool) -> bool {
    if a.len() != 1 { r is Err } else { match ev(a[0], e) { Err(x) => r == R::Err(x), Ok(v) => want(display(v), r) } }
}
//@ end
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ file src/binary/init/parse_module.rs
//@ fn json_to_expr loops=2
    ensures from_json($0, r),
    decreases $0,
//@ before_loop 0
    let ghost ga = a@;
//@ loop 0
    invariant
        v@.len() + vx_it1@.len() == ga.len(),
        forall|i: int| 0 <= i < vx_it1@.len() ==> #[trigger] vx_it1@[i] == ga[v@.len() + i],
        forall|i: int| 0 <= i < v@.len() ==> from_json(ga[i], #[trigger] v@[i]),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ before_loop 1
    let ghost go = o.ents();
//@ loop 1
    invariant
        vx_it2@.len() <= go.len(),
        forall|i: int| 0 <= i < vx_it2@.len() ==> (#[trigger] vx_it2@[i]).0@ == go[go.len() - vx_it2@.len() + i].0@ && *vx_it2@[i].1 == go[go.len() - vx_it2@.len() + i].1,
        forall|i: int| 0 <= i < go.len() - vx_it2@.len() ==> m@.contains_key((#[trigger] go[i]).0@) && from_json(go[i].1, m@[go[i].0@]),
        forall|k: Seq<char>| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < go.len() - vx_it2@.len() && (#[trigger] go[i]).0@ == k,
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ fn toml_to_expr loops=2
    ensures from_toml($0, r),
    decreases $0,
//@ before_loop 0
    let ghost ga = a@;
//@ loop 0
    invariant
        v@.len() + vx_it1@.len() == ga.len(),
        forall|i: int| 0 <= i < vx_it1@.len() ==> #[trigger] vx_it1@[i] == ga[v@.len() + i],
        forall|i: int| 0 <= i < v@.len() ==> from_toml(ga[i], #[trigger] v@[i]),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
//@ before_loop 1
    let ghost go = o.ents();
//@ loop 1
    invariant
        vx_it2@.len() <= go.len(),
        forall|i: int| 0 <= i < vx_it2@.len() ==> *(#[trigger] vx_it2@[i]).0 == go[go.len() - vx_it2@.len() + i].0 && *vx_it2@[i].1 == go[go.len() - vx_it2@.len() + i].1,
        forall|i: int| 0 <= i < go.len() - vx_it2@.len() ==> m@.contains_key((#[trigger] go[i]).0@) && from_toml(go[i].1, m@[go[i].0@]),
        forall|k: Seq<char>| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < go.len() - vx_it2@.len() && (#[trigger] go[i]).0@ == k,
    ensures vx_it2@.len() == 0,
    decreases vx_it2@.len(),
//@ fn parse_json
    ensures of_text(r, $0@, *old($1), |s: Seq<char>, q: R| if s.len() == 0 { q == R::Ok(Expression::None) } else { match json_of(s) { Some(v) => q is Ok && from_json(v, q->Ok_0), None => q is Err } }),
//@ fn parse_toml
    ensures of_text(r, $0@, *old($1), |s: Seq<char>, q: R| match toml_of(s) { Some(v) => q is Ok && from_toml(v, q->Ok_0), None => q is Err }),
//@ fn parse_expr
    ensures of_text(r, $0@, *old($1), |s: Seq<char>, q: R| if s.len() == 0 { q == R::Ok(Expression::None) } else { match script_of(s) {
        Ok(v) => q == R::Ok(v),
        Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => q == R::Err(Error::SyntaxError(str_of(s), e)),
        Err(nom::Err::Incomplete(_)) => q is Err,
    } }),
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
