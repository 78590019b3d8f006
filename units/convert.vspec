//@ raw
verus! {
pub trait VxInto<T>: Sized {
    spec fn conv(self) -> T;
    fn vx_into(self) -> (r: T) ensures r == self.conv();
}
} // verus!
//@ end
