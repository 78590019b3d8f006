//@ include lib.vspec
//@ default vclone ctx
//@ raw
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axe::ax_map_key_ext, axl::ax_mkvec, axl::ax_vec_back, axo::ax_list_len, axm::ax_mkmap, axm::ax_map_back, axm::ax_mkstr, axm::ax_str_back};
type R = Result<Expression, Error>;
//@ end
//@ file src/error.rs
//@ consts Error::*
//@ raw
/// the kind of an error: the name the table of codes uses for it
pub open spec fn kind(e: Error) -> Seq<char> {
    match e {
        Error::CannotApply(..) => "cannot-apply"@,
        Error::SymbolNotDefined(_) => "symbol-not-defined"@,
        Error::CommandFailed(..) => "command-failed"@,
        Error::ForNonList(_) => "for-non-list"@,
        Error::RecursionDepth(_) => "recursion-depth"@,
        Error::PermissionDenied(_) => "permission-denied"@,
        Error::ProgramNotFound(_) => "program-not-found"@,
        Error::SyntaxError(..) => "syntax-error"@,
        Error::CustomError(_) => "custom-error"@,
    }
}
/// the same kind, whatever the error carries
pub open spec fn same_kind(a: Error, b: Error) -> bool {
    match (a, b) {
        (Error::CannotApply(..), Error::CannotApply(..)) | (Error::SymbolNotDefined(_), Error::SymbolNotDefined(_))
        | (Error::CommandFailed(..), Error::CommandFailed(..)) | (Error::ForNonList(_), Error::ForNonList(_))
        | (Error::RecursionDepth(_), Error::RecursionDepth(_)) | (Error::PermissionDenied(_), Error::PermissionDenied(_))
        | (Error::ProgramNotFound(_), Error::ProgramNotFound(_)) | (Error::SyntaxError(..), Error::SyntaxError(..))
        | (Error::CustomError(_), Error::CustomError(_)) => true,
        _ => false,
    }
}
pub open spec fn code_of(e: Error) -> i64 {
    match e {
        Error::CannotApply(..) => Error::ERROR_CODE_CANNOT_APPLY,
        Error::SymbolNotDefined(_) => Error::ERROR_CODE_SYMBOL_NOT_DEFINED,
        Error::CommandFailed(..) => Error::ERROR_CODE_COMMAND_FAILED,
        Error::ForNonList(_) => Error::ERROR_CODE_FOR_NON_LIST,
        Error::RecursionDepth(_) => Error::ERROR_CODE_RECURSION_DEPTH,
        Error::PermissionDenied(_) => Error::ERROR_CODE_PERMISSION_DENIED,
        Error::ProgramNotFound(_) => Error::ERROR_CODE_PROGRAM_NOT_FOUND,
        Error::SyntaxError(..) => Error::ERROR_CODE_SYNTAX_ERROR,
        Error::CustomError(_) => Error::ERROR_CODE_CUSTOM_ERROR,
    }
}
/// different kinds have different codes
pub proof fn lemma_codes_differ(a: Error, b: Error)
    ensures code_of(a) == code_of(b) <==> same_kind(a, b),
{}
pub proof fn lemma_names()
    ensures forall|a: Error, b: Error| #[trigger] kind(a) == #[trigger] kind(b) ==> same_kind(a, b),
{
    reveal_strlit("cannot-apply"); reveal_strlit("symbol-not-defined"); reveal_strlit("command-failed");
    reveal_strlit("for-non-list"); reveal_strlit("recursion-depth"); reveal_strlit("permission-denied");
    reveal_strlit("program-not-found"); reveal_strlit("syntax-error"); reveal_strlit("custom-error");
    assert("cannot-apply"@.len() == 12 && "symbol-not-defined"@.len() == 18 && "command-failed"@.len() == 14 && "for-non-list"@.len() == 12 && "recursion-depth"@.len() == 15
        && "permission-denied"@.len() == 17 && "program-not-found"@.len() == 17 && "syntax-error"@.len() == 12 && "custom-error"@.len() == 12);
    assert("cannot-apply"@[1] == 'a'); assert("for-non-list"@[1] == 'o'); assert("syntax-error"@[1] == 'y'); assert("custom-error"@[1] == 'u');
    assert("permission-denied"@[1] == 'e'); assert("program-not-found"@[1] == 'r');
}
/// how an error is displayed (not specified)
pub uninterp spec fn message(e: Error) -> Seq<char>;
impl VxToString for Error {
    open spec fn shown(&self) -> Seq<char> { message(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
/// what an error handler is called with
pub open spec fn report(x: Error, arg: Expression) -> Map<Seq<char>, Expression> {
    Map::empty().insert("message"@, Expression::String(mkstr(message(x)))).insert("code"@, Expression::Integer(code_of(x)))
        .insert("expression"@, Expression::Quote(Box::new(arg)))
}
//@ end
//@ fn Error::code
    ensures r == code_of(*self),
//@ fn Error::codes
    ensures r is Map, forall|e: Error| r->Map_0@.contains_key(#[trigger] kind(e)) && r->Map_0@[kind(e)] == Expression::Integer(code_of(e)),
//@ entry
    proof {
    reveal_strlit("cannot-apply"); reveal_strlit("symbol-not-defined"); reveal_strlit("command-failed");
    reveal_strlit("for-non-list"); reveal_strlit("recursion-depth"); reveal_strlit("permission-denied");
    reveal_strlit("program-not-found"); reveal_strlit("syntax-error"); reveal_strlit("custom-error");
    assert("cannot-apply"@.len() == 12 && "symbol-not-defined"@.len() == 18 && "command-failed"@.len() == 14 && "for-non-list"@.len() == 12 && "recursion-depth"@.len() == 15
        && "permission-denied"@.len() == 17 && "program-not-found"@.len() == 17 && "syntax-error"@.len() == 12 && "custom-error"@.len() == 12);
    assert("cannot-apply"@[1] == 'a'); assert("for-non-list"@[1] == 'o'); assert("syntax-error"@[1] == 'y'); assert("custom-error"@[1] == 'u');
    assert("permission-denied"@[1] == 'e'); assert("program-not-found"@[1] == 'r');
    }
//@ attrs
#[verifier::rlimit(50)]
//@ file src/binary/init/err_module.rs
//@ fn try_builtin
    ensures args@.len() != 2 ==> r is Err && *final(env) == *old(env),
        args@.len() == 2 ==> match evals(args@[0], *old(env)) {
            (Ok(v), e1) => r == R::Ok(v) && *final(env) == e1,
            (Err(x), e1) => (r, *final(env)) == evals(call(args@[1], seq![Expression::Map(mkmap(report(x, args@[0])))]), e1),
        },
//@ arm Err 0
    proof {
        let s = seq![Expression::Map(mkmap(report(err, args@[0])))];
        assert forall|v: Vec<Expression>| #[trigger] v@ =~= s implies v == mkvec(s) by { assert(v@ == s); assert(mkvec(s)@ == s); }
    }
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
