//@ raw
fn main() {}
//@ end
