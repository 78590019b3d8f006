//@ raw
/// a part of the text
pub open spec fn inside(s: Seq<char>, x: StrSlice) -> bool { x.start <= x.end && boundary(s, x.start as nat) && boundary(s, x.end as nat) }
pub open spec fn diag_inside(s: Seq<char>, d: Diagnostic) -> bool {
    match d {
        Diagnostic::Valid => true,
        Diagnostic::InvalidStringEscapes(v) => forall|i: int| 0 <= i < v@.len() ==> inside(s, #[trigger] v@[i]),
        Diagnostic::InvalidNumber(x) => inside(s, x),
        Diagnostic::IllegalChar(x) => inside(s, x),
        Diagnostic::NotTokenized(x) => inside(s, x),
    }
}
pub open spec fn error_inside(s: Seq<char>, e: SyntaxError) -> bool
    decreases e,
{
    match e {
        SyntaxError::TokenizationErrors(v) => forall|i: int| 0 <= i < v@.len() ==> diag_inside(s, #[trigger] v@[i]),
        SyntaxError::Expected { input, .. } => inside(s, input),
        SyntaxError::ExpectedChar { at, .. } => at is Some ==> inside(s, at->Some_0),
        SyntaxError::NomError { at, cause, .. } => (at is Some ==> inside(s, at->Some_0)) && (match cause { Some(c) => error_inside(s, *c), None => true }),
        SyntaxError::InternalError => true,
    }
}
//@ end
