//@ raw
verus! {
// ---------------------------------------------------------------- values treated by content
// The verified text compares owned containers by content: a text is its characters, a
// vector its elements, a map its entries. (Capacity and addresses are not observable.)
pub mod axe {
    use super::*;
    verus! {
    pub broadcast axiom fn ax_string_ext(a: String, b: String) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
    pub broadcast axiom fn ax_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
    pub broadcast axiom fn ax_map_ext<K, T>(a: BTreeMap<K, T>, b: BTreeMap<K, T>) ensures #[trigger] a.ents() == #[trigger] b.ents() ==> a == b;
    pub broadcast axiom fn ax_map_key_ext<T>(a: BTreeMap<String, T>, b: BTreeMap<String, T>) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
    pub broadcast axiom fn ax_map_ordered<T>(a: BTreeMap<String, T>) ensures #[trigger] ordered(a.ents()) ;
    pub broadcast axiom fn ax_map_ents<T>(a: BTreeMap<String, T>, i: int)
        ensures 0 <= i < a.ents().len() ==> a@.contains_key((#[trigger] a.ents()[i]).0@) && a@[a.ents()[i].0@] == a.ents()[i].1;
    pub broadcast axiom fn ax_map_view<T>(a: BTreeMap<String, T>, k: Seq<char>)
        ensures #[trigger] a@.contains_key(k) ==> exists|i: int| 0 <= i < a.ents().len() && (#[trigger] a.ents()[i]).0@ == k;
    pub broadcast axiom fn ax_map_dec<K, T>(a: BTreeMap<K, T>, i: int)
        ensures 0 <= i < a.ents().len() ==> (decreases_to!(a => (#[trigger] a.ents()[i]).1));
    pub broadcast axiom fn ax_map_decv<T>(a: BTreeMap<String, T>, k: Seq<char>)
        ensures a@.contains_key(k) ==> (decreases_to!(a => #[trigger] a@[k]));
    }
}
/// lexicographic order of texts
pub open spec fn text_lt(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len(),
{
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { (a[0] as u32) < (b[0] as u32) } else { text_lt(a.skip(1), b.skip(1)) }
}
pub open spec fn ordered<T>(e: Seq<(String, T)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < e.len() ==> text_lt((#[trigger] e[i]).0@, (#[trigger] e[j]).0@)
}
pub trait VxClone: Sized {
    fn vx_clone(&self) -> (r: Self) ensures r == *self;
}
impl VxClone for String {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
impl VxClone for Expression {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
impl VxClone for Environment {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
impl VxClone for Builtin {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
impl<T: VxClone> VxClone for Box<T> {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
impl<T: VxClone> VxClone for Vec<T> {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
impl<K: VxClone, T: VxClone> VxClone for BTreeMap<K, T> {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_string_from<S: VxStr>(s: S) -> (r: String)
    ensures r@ == s.txt(),
{ unimplemented!() }

// ---------------------------------------------------------------- text made from values
pub trait VxToString { spec fn shown(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.shown(); }
impl VxToString for str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxToString for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl<T: VxToString + ?Sized> VxToString for &T {
    open spec fn shown(&self) -> Seq<char> { (**self).shown() }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
/// how an expression is displayed (not specified)
pub uninterp spec fn display(e: Expression) -> Seq<char>;
impl VxToString for Expression {
    open spec fn shown(&self) -> Seq<char> { display(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

// ---------------------------------------------------------------- maps
/// std::collections::BTreeMap. `ents`: the entries in key order.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types_in_ground_variants(T)]
pub struct BTreeMap<K, T> { p: core::marker::PhantomData<(K, T)> }
impl<K, T> BTreeMap<K, T> {
    pub uninterp spec fn ents(&self) -> Seq<(K, T)>;
    pub uninterp spec fn view(&self) -> Map<Seq<char>, T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.ents() == Seq::<(K, T)>::empty(), r@ == Map::<Seq<char>, T>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.ents().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.ents().len() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: VxIt<(K, T)>)
        ensures r@ == self.ents(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: VxIt<(&K, &T)>)
        ensures r@.len() == self.ents().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self.ents()[i].0 && *r@[i].1 == self.ents()[i].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: VxIt<&K>)
        ensures r@.len() == self.ents().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.ents()[i].0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: VxIt<&T>)
        ensures r@.len() == self.ents().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.ents()[i].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_keys(self) -> (r: VxIt<K>)
        ensures r@ == self.ents().map_values(|e: (K, T)| e.0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_values(self) -> (r: VxIt<T>)
        ensures r@ == self.ents().map_values(|e: (K, T)| e.1),
    { unimplemented!() }
}
impl<K: VxStr, T> BTreeMap<K, T> {
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: T) -> (r: Option<T>)
        ensures final(self)@ == old(self)@.insert(k.txt(), v),
            r == (if old(self)@.contains_key(k.txt()) { Some(old(self)@[k.txt()]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<S: VxStr + ?Sized>(&self, k: &S) -> (r: Option<&T>)
        ensures match r { Some(v) => self@.contains_key(k.txt()) && *v == self@[k.txt()], None => !self@.contains_key(k.txt()) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains_key<S: VxStr + ?Sized>(&self, k: &S) -> (r: bool)
        ensures r == self@.contains_key(k.txt()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<S: VxStr + ?Sized>(&mut self, k: &S) -> (r: Option<T>)
        ensures final(self)@ == old(self)@.remove(k.txt()),
            r == (if old(self)@.contains_key(k.txt()) { Some(old(self)@[k.txt()]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_remove_entry<S: VxStr + ?Sized>(&mut self, k: &S) -> (r: Option<(K, T)>)
        ensures final(self)@ == old(self)@.remove(k.txt()),
            match r { Some((q, v)) => old(self)@.contains_key(k.txt()) && q.txt() == k.txt() && v == old(self)@[k.txt()], None => !old(self)@.contains_key(k.txt()) },
    { unimplemented!() }
}
/// std: `impl<T> From<T> for T`
impl<K, T> VxInto<BTreeMap<K, T>> for BTreeMap<K, T> {
    open spec fn conv(self) -> BTreeMap<K, T> { self }
    fn vx_into(self) -> (r: BTreeMap<K, T>) { self }
}

// ---------------------------------------------------------------- what the expressions refer to
pub type Int = i64;
/// a builtin's code: a function value
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct BuiltinFn { p: usize }

} // verus!
//@ end
//@ raw
verus! {
//@ end
//@ file src/expr.rs
//@ types Expression Builtin
//@ file src/env.rs
//@ types Environment
//@ file src/error.rs
//@ types Error
//@ raw
} // verus!
//@ end
