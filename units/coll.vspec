//@ raw
verus! {
/// text only shown to people
#[verifier::external_body]
pub fn vx_format() -> (r: String) { unimplemented!() }
pub trait VxShow { fn to_string(&self) -> String; }
pub open spec fn call(f: Expression, x: Seq<Expression>) -> Expression { Expression::Apply(Box::new(f), mkvec(x)) }
/// the vector with these elements
pub uninterp spec fn mkvec<T>(s: Seq<T>) -> Vec<T>;
pub mod axl {
    use super::*;
    verus! {
    /// there is one, of any length that vectors have; and every vector is the one with its elements
    pub broadcast axiom fn ax_mkvec<T>(s: Seq<T>) ensures s.len() <= isize::MAX ==> #[trigger] mkvec(s)@ == s;
    pub broadcast axiom fn ax_vec_back<T>(v: Vec<T>) ensures mkvec(#[trigger] v@) == v;
    }
}
/// the map with these entries, the text with these characters
pub uninterp spec fn mkmap<T>(m: Map<Seq<char>, T>) -> BTreeMap<String, T>;
pub uninterp spec fn mkstr(s: Seq<char>) -> String;
pub mod axm {
    use super::*;
    verus! {
    /// there is one, for any map (which is finite; its size is not limited here) and for as many
    /// characters as a text can have; every map is the one with its entries, every text the one with
    /// its characters
    pub broadcast axiom fn ax_mkmap<T>(m: Map<Seq<char>, T>) ensures (#[trigger] mkmap(m))@ == m;
    pub broadcast axiom fn ax_map_back<T>(m: BTreeMap<String, T>) ensures mkmap(#[trigger] m@) == m;
    pub broadcast axiom fn ax_mkstr(s: Seq<char>) ensures bl(s) <= isize::MAX ==> (#[trigger] mkstr(s))@ == s;
    pub broadcast axiom fn ax_str_back(x: String) ensures mkstr(#[trigger] x@) == x;
    }
}

// ---------------------------------------------------------------- iterators and vectors
pub open spec fn nmin(a: int, b: int) -> int { if a < b { a } else { b } }
impl<T> VxIt<T> {
    #[verifier::external_body]
    pub fn vx_skip(self, n: usize) -> (r: VxIt<T>) ensures r@ == self@.skip(nmin(n as int, self@.len() as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(self, n: usize) -> (r: VxIt<T>) ensures r@ == self@.take(nmin(n as int, self@.len() as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: VxIt<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_last(self) -> (r: Option<T>) ensures r == (if self@.len() == 0 { None } else { Some(self@.last()) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_zip<B>(self, o: VxIt<B>) -> (r: VxIt<(T, B)>)
        ensures r@.len() == nmin(self@.len() as int, o@.len() as int), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self@[i], o@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: VxIt<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_chain(self, o: VxIt<T>) -> (r: VxIt<T>) ensures r@ == self@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl<T> VxIt<&T> {
    #[verifier::external_body]
    pub fn vx_cloned(self) -> (r: VxIt<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_iter_of<T>(v: Vec<T>) -> (r: VxIt<T>) ensures r@ == v@ { unimplemented!() }
pub trait VxIter<T> { fn vx_iter(&self) -> VxIt<&T>; }
impl<T> VxIter<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIt<&T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { unimplemented!() }
}
impl<T> VxIter<T> for [T] {
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIt<&T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_range_incl(a: i64, b: i64) -> (r: VxIt<i64>)
    ensures r@.len() == (if b >= a { b - a + 1 } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i,
{ unimplemented!() }
pub assume_specification[String::len](s: &String) -> (r: usize) ensures r == bl(s@);
pub trait VxOpt<T>: Sized { spec fn opt(self) -> Option<T>; fn vx_unwrap_or(self, d: T) -> T; }
impl<T> VxOpt<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self { Some(x) => x, None => d }) { match self { Some(x) => x, None => d } }
}
/// std: From<small integer> for i64
pub trait VxIntFrom: Sized { spec fn int_of(self) -> i64; fn vx_int(self) -> (r: i64) ensures r == self.int_of(); }
impl VxIntFrom for i64 {
    open spec fn int_of(self) -> i64 { self }
    fn vx_int(self) -> (r: i64) { self }
}
impl VxIntFrom for i32 {
    open spec fn int_of(self) -> i64 { self as i64 }
    fn vx_int(self) -> (r: i64) { self as i64 }
}
impl VxIntFrom for u32 {
    open spec fn int_of(self) -> i64 { self as i64 }
    fn vx_int(self) -> (r: i64) { self as i64 }
}
impl VxIntFrom for u8 {
    open spec fn int_of(self) -> i64 { self as i64 }
    fn vx_int(self) -> (r: i64) { self as i64 }
}
pub fn vx_int_from<T: VxIntFrom>(x: T) -> (r: i64) ensures r == x.int_of() { x.vx_int() }
pub trait VxNew: Sized { spec fn fresh(&self) -> bool; }
impl<T> VxNew for Vec<T> { open spec fn fresh(&self) -> bool { self@ =~= Seq::<T>::empty() } }
#[verifier::external_body]
pub fn vx_new_collection<C: VxNew>() -> (r: C) ensures r.fresh() { unimplemented!() }
pub trait VxPush<T> { fn vx_push(&mut self, x: T); }
impl<T> VxPush<T> for Vec<T> { fn vx_push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.push(x) } }
pub trait VxCollect<T>: Sized { spec fn collected(&self, s: Seq<T>) -> bool; }
impl<T> VxCollect<T> for Vec<T> { open spec fn collected(&self, s: Seq<T>) -> bool { self@ == s } }
impl VxCollect<char> for String { open spec fn collected(&self, s: Seq<char>) -> bool { self@ == s } }
#[verifier::external_body]
pub fn vx_collect<T, C: VxCollect<T>>(it: VxIt<T>) -> (r: C) ensures r.collected(it@) { unimplemented!() }

impl VxInto<Expression> for i64 {
    open spec fn conv(self) -> Expression { Expression::Integer(self) }
    fn vx_into(self) -> (r: Expression) { Expression::Integer(self) }
}
impl VxInto<Expression> for bool {
    open spec fn conv(self) -> Expression { Expression::Boolean(self) }
    fn vx_into(self) -> (r: Expression) { Expression::Boolean(self) }
}
impl VxInto<Expression> for String {
    open spec fn conv(self) -> Expression { Expression::String(self) }
    fn vx_into(self) -> (r: Expression) { Expression::String(self) }
}
impl VxInto<Expression> for Vec<Expression> {
    open spec fn conv(self) -> Expression { Expression::List(self) }
    fn vx_into(self) -> (r: Expression) { Expression::List(self) }
}
impl VxInto<Expression> for Expression {
    open spec fn conv(self) -> Expression { self }
    fn vx_into(self) -> (r: Expression) { self }
}
} // verus!
//@ end
