//@ raw
verus! {
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
} // verus!
//@ end
