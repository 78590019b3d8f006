//@ include evalbody.vspec
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
