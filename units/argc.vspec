//@ raw
verus! {
// ---------------------------------------------------------------- argument counts
pub trait VxRangeBounds<T> {
    spec fn within(&self, x: T) -> bool;
    fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.within(*x);
}
impl VxRangeBounds<usize> for core::ops::RangeFrom<usize> {
    open spec fn within(&self, x: usize) -> bool { x >= self.start }
    fn vx_contains(&self, x: &usize) -> (r: bool) { *x >= self.start }
}
impl VxRangeBounds<usize> for core::ops::Range<usize> {
    open spec fn within(&self, x: usize) -> bool { self.start <= x < self.end }
    fn vx_contains(&self, x: &usize) -> (r: bool) { self.start <= *x && *x < self.end }
}
impl VxRangeBounds<usize> for core::ops::RangeInclusive<usize> {
    open spec fn within(&self, x: usize) -> bool { self@.start <= x <= self@.end && !self@.exhausted }
    #[verifier::external_body]
    fn vx_contains(&self, x: &usize) -> (r: bool) { unimplemented!() }
}
} // verus!
//@ end
