//@ include lexbody.vspec
//@ raw
} // verus!
//@ end
//@ include post.vspec
