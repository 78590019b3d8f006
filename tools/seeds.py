seed("T01-wide-space", "T01", "src/tokenizer.rs",
     "let ws_chars = input.chars().take_while(char::is_ascii_whitespace).count();",
     "let ws_chars = input.chars().take_while(|c| c.is_whitespace()).count();",
     "a run of whitespace that contains a multi-byte space is cut at a character count used as a byte length",
     "a non-ASCII whitespace character such as U+00A0 after or between spaces",
     script=r"accepted 'print 1;\xc2\xa0\xe2\x80\x83print 2' no")
seed("T02-bare-cr", "T02", "src/tokenizer.rs",
     r"take_while(|&c| !matches!(c, '\r' | '\n'))", r"take_while(|&c| c != '\n')",
     "a comment runs past a carriage return that ends its line",
     "a line ended by a lone carriage return after a comment",
     script=r"expect 'println 1; # note\rprintln 2;\n' '1\n2'")
seed("T03-six-digits", "T03", "src/tokenizer.rs",
     "            1,\n            5,\n            parse_hex_digit", "            1,\n            6,\n            parse_hex_digit",
     "an escape of six hex digits is accepted",
     "a \\u{...} escape with exactly six digits in a string literal",
     script='accepted \'let x = "a\\\\u{1f600}b";\' yes\naccepted \'let x = "a\\\\u{10ffff}b";\' no')
seed("A01-sub-min", "A01", "src/expr.rs",
     "match m.checked_sub(n) {", "match m.checked_add(-n) {",
     "subtraction adds the negated right operand, which does not exist for the smallest integer",
     "subtracting the smallest integer from a negative number",
     script=r"expect 'print (-1 - (-9223372036854775807 - 1))' '9223372036854775807'")
seed("A02-neg-index", "A02", "src/expr.rs",
     "(Self::List(list), Self::Integer(n)) if list.len() > n as usize => &list[n as usize],",
     "(Self::List(list), Self::Integer(n)) if (list.len() as i64) > n => &list[n.max(0) as usize],",
     "indexing a list by a negative position gives the first element, or crashes on an empty list",
     "a negative index",
     script=r"expect 'print ([7,8] @ (0 - 1))' 'None'\nexpect 'print ([] @ (0 - 1))' 'None'".replace("\\n", "\n"))
seed("A03-nan", "A03", "src/expr.rs",
     "(Self::Float(a), Self::Float(b)) => a.partial_cmp(b),",
     "(Self::Float(a), Self::Float(b)) => Some(a.total_cmp(b)),",
     "floats are compared in the total order of their bit patterns, so -0.0 is less than 0.0 and NaN is ordered",
     "comparing zeros of different sign, or a NaN",
     rust='''use dune::Expression as E;
use std::cmp::Ordering;
fn main() {
    assert_eq!(E::Float(-0.0).partial_cmp(&E::Float(0.0)), Some(Ordering::Equal));
    assert_eq!(E::Float(f64::NAN).partial_cmp(&E::Float(1.0)), None);
    assert_eq!(E::Float(1.0).partial_cmp(&E::Float(2.0)), Some(Ordering::Less));
}
''')
seed("E05-cwd-chain", "E05", "src/env.rs",
     "        match self.get(CWD_ENV_VAR) {", "        match self.bindings.get(CWD_ENV_VAR).cloned() {",
     "the working directory set in an enclosing scope is not seen from an inner one",
     "an inner scope that has no working directory of its own",
     rust='''use dune::Environment;
fn main() {
    let mut outer = Environment::new();
    outer.set_cwd("/x");
    let mut inner = Environment::new();
    inner.set_parent(outer);
    assert_eq!(inner.get_cwd(), "/x");
    let mut deep = Environment::new();
    deep.set_parent(inner);
    assert_eq!(deep.get_cwd(), "/x");
    deep.set_cwd("/y");
    assert_eq!(deep.get_cwd(), "/y");
}
''')
seed("L01-range-top", "L01", "src/binary/init/list_module.rs",
     "(a..=b).map(|n| n.into()).collect()", "(a..b.saturating_add(1)).map(|n| n.into()).collect()",
     "an inclusive range that ends at the largest integer loses its last element",
     "list@range with 9223372036854775807 as its upper end",
     script=r"expect 'print (list@len (list@range 9223372036854775805 9223372036854775807))' '3'" "\n" r"expect 'print ((list@range 1 3) @ 2)' '3'")
seed("L01-chunk-tail", "L01", "src/binary/init/list_module.rs",
     "            if !chunk.is_empty() {\n", "            if chunk.len() > 1 || result.is_empty() {\n",
     "chunk drops a last piece of one element",
     "a list whose length is one more than a multiple of the piece size",
     script=r"expect 'print (list@len (list@chunk 2 [1, 2, 3, 4, 5]))' '3'" "\n" r"expect 'print (list@len (list@chunk 2 [1, 2, 3, 4]))' '2'")
seed("L02-filter-true", "L02", "src/binary/init/fn_module.rs",
     "                .eval(env)?\n                .is_truthy()\n            {", "                .eval(env)?\n                == Expression::Boolean(true)\n            {",
     "filter keeps only elements whose test gives exactly True, not every truthy result",
     "a test that answers with a truthy value other than True",
     script=r"expect 'print (list@len (fn@filter (x -> x % 2) [1, 2, 3]))' '2'" "\n" r"expect 'print (list@len (fn@filter (x -> x > 1) [1, 2, 3]))' '2'")
seed("D01-intersect-small", "D01", "src/binary/init/dict_module.rs",
     "                    let mut map = std::collections::BTreeMap::new();\n                    for (key, value) in map1 {\n                        if map2.contains_key(&key) {",
     "                    let mut map = std::collections::BTreeMap::new();\n                    let (map1, map2) = if map2.len() < map1.len() { (map2, map1) } else { (map1, map2) };\n                    for (key, value) in map1 {\n                        if map2.contains_key(&key) {",
     "intersect walks the smaller map, and so takes the second map's values when that one is smaller",
     "a second map with fewer entries and a different value for a shared key",
     script=r"expect 'let a = {x=1, y=2}; let b = {x=9}; print ((dict@intersect a b) @ x)' '1'" "\n" r"expect 'let a = {x=1, y=2}; let b = {x=9, z=3}; print ((dict@intersect a b) @ x)' '1'")
seed("O01-ge-unordered", "O01", "src/binary/init/operator_module.rs",
     "args[0].clone().eval(env)? >= args[1].clone().eval(env)?", "!(args[0].clone().eval(env)? < args[1].clone().eval(env)?)",
     ">= is the negation of <, so it holds for values that are not ordered at all",
     "comparing values of different types with >=",
     script=r'''expect 'print (1 >= "a")' 'False'
expect 'print ([1] >= {})' 'False'
expect 'print (3 >= 2)' 'True'
''')
seed("R01-same-code", "R01", "src/error.rs",
     "pub const ERROR_CODE_FOR_NON_LIST: Int = 4;", "pub const ERROR_CODE_FOR_NON_LIST: Int = 9;",
     "a loop over something that is no list carries the code of a custom error",
     "telling a for-non-list error from a custom error by its code",
     rust='''use dune::{Error, Expression as E};
fn main() {
    let a = Error::ForNonList(E::None).code();
    let b = Error::CustomError(String::new()).code();
    assert!(a != b);
}
''')
seed("R01-try-again", "R01", "src/binary/init/err_module.rs",
     'String::from("expression") => Expression::Quote(Box::new(args[0].clone()))', 'String::from("expression") => args[0].clone()',
     "the failing expression is given to the handler unquoted, so it runs a second time and its error escapes the try",
     "a try whose expression really fails",
     script=r'''expect 'print (err@try (1 // 0) (e -> 77))' '77'
expect 'print (err@try (6 // 2) (e -> 77))' '3'
''')
STRIP = r'''
fn main() {
    for line in LINES {
        let back = strip_ansi_escapes(&syntax_highlight(line));
        assert_eq!(&back, line);
    }
    assert_eq!(strip_ansi_escapes("a\x1b[38;5;9mb\x1b[mc"), "abc");
    assert_eq!(strip_ansi_escapes("a\x1b]0;title\x07mb"), "ab");
    assert_eq!(strip_ansi_escapes("mama"), "mama");
}
'''
seed("H01-any-letter", "H01", "src/bin.rs",
     "} else if is_in_escape && ch == 'm' {", "} else if is_in_escape && ch.is_ascii_alphabetic() {",
     "an escape sequence is taken to end at its first letter, so one with another letter before the m leaves text behind",
     "an escape sequence with a letter before its m",
     bin='const LINES: &[&str] = &["let a = 1"];' + STRIP)
seed("H01-number-spot", "H01", [("src/tokenizer.rs",
     "        return Ok((rest, (token, Diagnostic::InvalidNumber(range))));", "        return Ok((rest, (token, Diagnostic::InvalidNumber(rest.split_empty()))));")], None, None,
     "the diagnostic of an incomplete number points behind it, where the digits are missing; the highlighter, which shows the diagnostic's text, drops the number",
     "highlighting a number that ends with its dot",
     bin='const LINES: &[&str] = &["let a = 1", "1. + 2", "x = -0."];' + STRIP)
DEEP = '''use dune::{Environment, Error, Expression as E};
fn on_big_stack(f: impl FnOnce() + Send + 'static) {
    std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join().unwrap();
}
fn limited(e: E) {
    match e.eval(&mut Environment::new()) {
        Err(Error::RecursionDepth(_)) => {}
        other => panic!("{:?}", other.is_ok()),
    }
}
'''
seed("E01-if-flat", "E01", "src/expr.rs",
     "                    .eval_mut(env, depth + 1)\n                }\n\n                Self::Apply", "                    .eval_mut(env, depth)\n                }\n\n                Self::Apply",
     "the branch of an if is evaluated at the depth of the if itself, so conditionals can nest without ever coming closer to the limit",
     "more than 800 conditionals nested in each other",
     rust=DEEP + '''fn main() {
    on_big_stack(|| {
        let mut e = E::Integer(1);
        for _ in 0..2000 { e = E::If(Box::new(E::Boolean(true)), Box::new(e), Box::new(E::None)); }
        limited(e);
    });
}
''')
seed("E01-macro-tail", "E01", "src/expr.rs",
     "                        self = *body;\n                    }", "                        self = *body;\n                        continue;\n                    }",
     "the step from a macro call to the macro's body is not counted, so a macro that ends by calling itself runs forever",
     "a macro whose last step applies it to itself",
     script=r'''printf 'let w = x ~> x x; w w' > "$d/s.ds"
(ulimit -v 4000000; cd "$d" && HOME="$d" timeout 60 "$bin" "$d/s.ds" < /dev/null > "$d/out" 2>&1)
rc=$?
if [ $rc -ne 0 ] || ! grep -q 'recursion depth exceeded' "$d/out"; then echo "status $rc"; tail -3 "$d/out"; bad=1; fi
''')
seed("E02-for-break", "E02", "src/expr.rs",
     "                            results.push(body.clone().eval_mut(env, depth + 1)?);\n                        }\n",
     "                            match body.clone().eval_mut(env, depth + 1) {\n                                Ok(x) => results.push(x),\n                                Err(_) if !results.is_empty() => break,\n                                Err(e) => return Err(e),\n                            }\n                        }\n",
     "an error in a later turn of a for loop ends the loop quietly with the results so far",
     "a loop body that fails after a first turn that succeeded",
     rust='''use dune::{Environment, Error, Expression as E};
fn third(args: Vec<E>, env: &mut Environment) -> Result<E, Error> {
    match args[0].eval(env)? {
        E::Integer(3) => Err(Error::CustomError("three".into())),
        x => Ok(x),
    }
}
fn main() {
    let body = E::Apply(Box::new(E::builtin("third", third, "")), vec![E::Symbol("i".into())]);
    let e = E::For("i".into(), Box::new(E::List(vec![E::Integer(1), E::Integer(2), E::Integer(3), E::Integer(4)])), Box::new(body));
    assert!(matches!(e.eval(&mut Environment::new()), Err(Error::CustomError(_))));
}
''')
seed("E02-words-backwards", "E02", [("src/expr.rs",
     "                        for arg in args {\n                            for flattened_arg in\n                                Self::flatten(vec![arg.clone().eval_mut(env, depth + 1)?])\n                            {",
     "                        let mut words = vec![];\n                        for arg in args.iter().rev() {\n                            words.push(arg.clone().eval_mut(env, depth + 1)?);\n                        }\n                        words.reverse();\n                        for arg in words {\n                            for flattened_arg in Self::flatten(vec![arg]) {")], None, None,
     "the words of a program call are evaluated from the right and put back in order, which shows when evaluating one affects another",
     "arguments of a program call with side effects",
     rust='''use dune::{Environment, Expression as E};
fn main() {
    let mut env = Environment::new();
    env.define("v", E::Integer(0));
    let set = |k: i64| E::Assign("v".into(), Box::new(E::Integer(k)));
    let e = E::Apply(Box::new(E::Symbol("qv-no-such-program".into())), vec![set(1), set(2)]);
    assert!(e.eval(&mut env).is_err());
    assert_eq!(env.get("v"), Some(E::Integer(2)));
}
''')
seed("E03-else-names", "E03", "src/expr.rs",
     "                result.extend(e.get_used_symbols());\n", "",
     "a function does not capture the names its body uses only in an else branch",
     "a function returned from its defining scope that uses an outer name only after else",
     script=r'''expect 'let mk = k -> (x -> if x { 1 } else { k }); print ((mk 5) False)' '5'
expect 'let mk = k -> (x -> if x { k } else { 1 }); print ((mk 5) True)' '5'
''')
seed("E03-second-dir", "E03", "src/expr.rs",
     "                        let mut new_env = old_env.clone();\n                        new_env.set_cwd(env.get_cwd());\n", "                        let mut new_env = old_env.clone();\n",
     "a function called with several arguments runs in the directory in which it was defined, not in the caller's",
     "a call with two or more arguments after the working directory has changed",
     rust='''use dune::{Environment, Expression as E};
fn main() {
    let mut env = Environment::new();
    env.set_cwd("/one");
    let f = E::Lambda("a".into(), Box::new(E::Do(vec![E::Assign("seen".into(), Box::new(E::Symbol("CWD".into()))), E::Lambda("b".into(), Box::new(E::Symbol("seen".into())), Environment::new())])), Environment::new());
    let f = f.eval(&mut env).unwrap();
    env.define("f", f);
    env.set_cwd("/two");
    let call = E::Apply(Box::new(E::Symbol("f".into())), vec![E::Integer(1), E::Integer(2)]);
    assert_eq!(call.eval(&mut env).unwrap(), E::String("/two".into()));
}
''')
seed("E03-macro-scope", "E03", "src/expr.rs",
     "                            Box::new(body.eval_mut(env, depth + 1)?),\n                            args[1..].to_vec(),", "                            Box::new(body.eval_mut(&mut env.clone(), depth + 1)?),\n                            args[1..].to_vec(),",
     "the body of a macro called with several arguments runs in a copy of the caller's scope, so what it binds is lost",
     "a macro called with two arguments whose body assigns before it yields the function for the second",
     script=r'''expect 'let m = a ~> { let seen = a; (b -> b) }; m 4 5; print seen' '4'
expect 'let m = a ~> { let seen = a; 1 }; m 4; print seen' '4'
''')
seed("E04-quoted-group", "E04", "src/expr.rs",
     "                Self::Quote(inner) => return Ok(*inner),", "                Self::Quote(inner) => {\n                    return Ok(match *inner {\n                        Self::Group(x) => *x,\n                        x => x,\n                    })\n                }",
     "quoting a grouped expression yields the expression without its group",
     "a quoted expression in parentheses",
     rust='''use dune::{Environment, Expression as E};
fn main() {
    let g = E::Group(Box::new(E::Integer(1)));
    assert_eq!(E::Quote(Box::new(g.clone())).eval(&mut Environment::new()).unwrap(), g);
    assert_eq!(E::Quote(Box::new(E::Symbol("x".into()))).eval(&mut Environment::new()).unwrap(), E::Symbol("x".into()));
}
''')
seed("E04-none-name", "E04", "src/expr.rs",
     "                        Some(expr) => expr,\n                        None => Self::Symbol", "                        Some(expr) if expr != Self::None => expr,\n                        _ => Self::Symbol",
     "a name that is bound to None is taken to be unbound and yields itself",
     "evaluating a name bound to None",
     rust='''use dune::{Environment, Expression as E};
fn main() {
    let mut env = Environment::new();
    env.define("x", E::None);
    assert_eq!(E::Symbol("x".into()).eval(&mut env).unwrap(), E::None);
    assert_eq!(E::Symbol("y".into()).eval(&mut env).unwrap(), E::Symbol("y".into()));
}
''')
seed("P01-every-other-pair", "P01", "src/parser.rs",
     "    for window in tokens.slice.windows(2) {", "    for window in tokens.slice.chunks_exact(2) {",
     "only every other pair of neighbouring tokens is checked for a missing gap",
     "two glued words of which the first is an even-numbered token of the script (counting from one)",
     rust='''use dune::parse_script;
fn main() {
    for s in ["1.5x", "x 1.5x", "(1.5x)", "(1 1.5x)", "[1.5x]", "let y = 1;1.5x", "let y = 1; 1.5x"] {
        assert!(parse_script(s).is_err(), "{:?} was accepted", s);
    }
    assert!(parse_script("(1.5 x)").is_ok());
}
''')
seed("P01-number-flag", "P01", "src/parser.rs",
     "    diagnostics.retain(|d| d != &Diagnostic::Valid);", "    diagnostics.retain(|d| !matches!(d, Diagnostic::Valid | Diagnostic::InvalidNumber(_)));",
     "a number the tokenizer flagged does not stop the script from running",
     "a script whose only lexical error is a malformed number",
     rust='''use dune::{parse_script, tokenize, Diagnostic};
fn main() {
    for s in ["1.", "1.5", "x 1.", "1.x", "let y = 12. ;", "print 1.. 2", "-1.", "0."] {
        let flagged = tokenize(s).1.iter().any(|d| d != &Diagnostic::Valid);
        if flagged {
            assert!(parse_script(s).is_err(), "{:?} was accepted", s);
        }
    }
    assert!(tokenize("1.x").1.iter().any(|d| matches!(d, Diagnostic::InvalidNumber(_))) || tokenize("1.").1.iter().any(|d| matches!(d, Diagnostic::InvalidNumber(_))));
}
''')
seed("P01-last-comment", "P01", "src/parser.rs",
     "    token_vec.retain(|t| !matches!(t.kind, TokenKind::Whitespace | TokenKind::Comment));",
     "    token_vec.retain(|t| t.kind != TokenKind::Whitespace && !(t.kind == TokenKind::Comment && t.range.to_str(&str).trim_end().len() > 1));",
     "an empty comment (a # with nothing after it) is kept as a token of the program",
     "a script with an empty comment line",
     script=r'''expect 'print 1; #\n#\nprint 2' '12'
expect 'print 1; # note\nprint 2' '12'
''')
seed("P02-commutes", "P02", [("src/parser.rs", "    list.reverse();\n\n    while let Some((op, item)) = list.pop() {\n        let op_fun = Expression::Symbol(op.text(input).to_string());\n\n        head = Expression::Group(Box::new(Expression::Apply(\n            Box::new(op_fun.clone()),\n            vec![head, item],\n        )));\n    }\n\n    Ok((input, head))\n}\n\nfn parse_expression_prec_two",
       "    if list.iter().any(|(op, _)| op.text(input) != \"*\") {\n        list.reverse();\n    }\n\n    while let Some((op, item)) = list.pop() {\n        let op_fun = Expression::Symbol(op.text(input).to_string());\n\n        head = Expression::Group(Box::new(Expression::Apply(\n            Box::new(op_fun.clone()),\n            vec![head, item],\n        )));\n    }\n\n    Ok((input, head))\n}\n\nfn parse_expression_prec_two")], None, None,
     "in a chain of nothing but * the operands after the first are taken in reverse order",
     "three or more operands joined by *",
     rust='''use dune::parse_script;
fn main() {
    let a = parse_script("a * b * c").unwrap();
    let b = parse_script("a + b + c").unwrap();
    assert_eq!(format!("{:?}", a), format!("{:?}", b).replace("+", "*"));
    let a = parse_script("a * b % c").unwrap();
    let b = parse_script("a + b - c").unwrap();
    assert_eq!(format!("{:?}", a), format!("{:?}", b).replace("+", "*").replace("-", "%"));
}
''')
seed("P02-empty-start", "P02", "src/parser.rs",
     "    if require_eof {", "    if require_eof && !exprs.is_empty() {",
     "a script of which nothing can be read is accepted as an empty program",
     "a script that starts with a token that cannot start an expression",
     rust='''use dune::parse_script;
fn main() {
    for s in [") x", "]", "; x", ", 1", "= 2", "} y"] {
        assert!(parse_script(s).is_err(), "{:?} was accepted", s);
    }
    assert!(parse_script("").is_ok());
    assert!(parse_script("x").is_ok());
}
''')
seed("P02-index-right", "P02", "src/parser.rs",
     "        alt((parse_expression_prec_one, parse_operator_as_symbol)),\n    ))(input)?;\n\n    if args.is_empty()", "        alt((parse_expression_prec_two, parse_operator_as_symbol)),\n    ))(input)?;\n\n    if args.is_empty()",
     "a chain of @ groups to the right",
     "two or more @ in a row",
     rust='''use dune::{parse_script, Expression as E};
fn main() {
    let n = |s: &str| E::Symbol(s.into());
    let at = E::Apply(Box::new(n("@")), vec![n("a"), n("b"), n("c")]);
    assert_eq!(parse_script("a @ b @ c").unwrap(), E::Do(vec![at]));
}
''')
seed("P02-range-right", "P02", [("src/parser.rs", "    let (input, from) = parse_expression_prec_four(input)?;\n    let (input, _) = text(\"to\")(input)?;\n\n    let (input, to) = parse_expression_prec_four(input)",
       "    let (input, from) = parse_expression_prec_four(input)?;\n    let (input, _) = text(\"to\")(input)?;\n\n    let (input, to) = parse_expression_prec_three(input)")], None, None,
     "the upper end of a for loop's range binds tighter than + and -",
     "a for loop whose range ends in a sum",
     script=r'''expect 'let n = 2; for i in 0 to n + 1 { print i }' '012'
expect 'for i in 0 to 2 { print i }' '01'
''')
seed("P03-unsigned", "P03", "src/parser.rs",
     "    let num = num.to_str(input.str).parse::<Int>().map_err(|e| {\n        SyntaxError::unrecoverable(num, \"integer\"", "    let written = num.to_str(input.str);\n    let num = written.parse::<Int>().or_else(|e| written.parse::<u64>().map(|n| n as Int).map_err(|_| e)).map_err(|e| {\n        SyntaxError::unrecoverable(num, \"integer\"",
     "an integer between 2^63 and 2^64 wraps to a negative number",
     "an integer literal in that range",
     rust='''use dune::{parse_script, Expression as E};
fn main() {
    for s in ["9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775809"] {
        assert!(parse_script(s).is_err(), "{} was accepted", s);
    }
    assert_eq!(parse_script("9223372036854775807").unwrap(), E::Do(vec![E::Integer(i64::MAX)]));
    assert_eq!(parse_script("-9223372036854775808").unwrap(), E::Do(vec![E::Integer(i64::MIN)]));
}
''')
seed("P03-open-none", "P03", "src/parser.rs",
     "    } else if input.len() >= 2 && input[0].text(input) == \"(\" && input[1].text(input) == \")\" {", "    } else if !input.is_empty() && input[0].text(input) == \"(\" && input[1].text(input) == \")\" {",
     "a script ending in an opening parenthesis crashes the parser",
     "an opening parenthesis as the last token",
     rust='''use dune::parse_script;
fn main() {
    for s in ["(", "x (", "[1, (", "()", "(("] {
        let s = s.to_string();
        assert!(std::panic::catch_unwind(move || { let _ = parse_script(&s); }).is_ok(), "the parser crashed");
    }
}
''')
seed("P03-float-first", "P03", [("src/parser.rs", "    let (input, num) = kind(TokenKind::FloatLiteral)(input)?;\n    let num = num.to_str(input.str).parse::<f64>()", "    let (input, num) = match input.first() {\n        Some(t) if t.kind == TokenKind::IntegerLiteral && t.text(input).len() > 19 => (input.skip_n(1), t.range),\n        _ => kind(TokenKind::FloatLiteral)(input)?,\n    };\n    let num = num.to_str(input.str).parse::<f64>()")], None, None,
     "an integer literal of twenty or more characters is read as a float",
     "-9223372036854775808 or any longer integer",
     rust='''use dune::{parse_script, Expression as E};
fn main() {
    assert_eq!(parse_script("-9223372036854775808").unwrap(), E::Do(vec![E::Integer(i64::MIN)]));
    assert_eq!(parse_script("-1000000000000000001").unwrap(), E::Do(vec![E::Integer(-1000000000000000001)]));
    assert!(parse_script("99999999999999999999").is_err());
}
''')
seed("S01-nested-failure", "S01", "src/binary/init/fs_module.rs",
     "                    copy_path(&path, &dst_path)?;", "                    if copy_path(&path, &dst_path).is_err() && !dst.is_dir() {\n                        return Err(Error::CustomError(format!(\n                            \"could not copy {}\",\n                            path.display()\n                        )));\n                    }",
     "copying a directory ignores the entries that cannot be copied and reports success",
     "a directory with an entry that cannot be copied, such as a link that leads nowhere",
     script=r'''mkdir "$d/t"; echo data > "$d/t/f"; ln -s nowhere "$d/t/l"
accepted 'fs@cp "t" "u"' no
accepted 'fs@cp "t/f" "v"' yes
''')
seed("S01-next-to-source", "S01", "src/binary/init/fs_module.rs",
     "            let dst = cwd.join(args[1].eval(env)?.to_string());\n\n            move_path(&src, &dst)?;", "            let dst = src.parent().unwrap_or(&cwd).join(args[1].eval(env)?.to_string());\n\n            move_path(&src, &dst)?;",
     "a relative destination of mv is taken next to the source instead of in the working directory",
     "moving a file out of a directory",
     script=r'''mkdir "$d/t"; echo data > "$d/t/f"; echo data > "$d/g"
accepted 'fs@mv "t/f" "h"' yes
[ -e "$d/h" ] || { echo "not moved"; bad=1; }
accepted 'fs@mv "g" "k"' yes
[ -e "$d/k" ] || { echo "not moved"; bad=1; }
''')
seed("S01-same-file", "S01",
     [("src/binary/init/fs_module.rs", "fn move_path(src: &Path, dst: &Path) -> Result<(), Error> {\n    if src == dst {", "fn move_path(src: &Path, dst: &Path) -> Result<(), Error> {\n    if src == dst || (dst.exists() && src.canonicalize().ok() == dst.canonicalize().ok()) {")], None, None,
     "moving a file onto a link to it, or a link onto its file, reports success although nothing was moved",
     "source and destination that are different paths to one file",
     script=r'''echo data > "$d/f"; ln -s f "$d/l"
accepted 'fs@mv "f" "l"' no
accepted 'fs@mv "l" "f"' no
accepted 'fs@mv "f" "g"' yes
''')
seed("S01-gone-already", "S01", "src/binary/init/fs_module.rs",
     "    } else if std::fs::remove_file(path).is_err() {", "    } else if std::fs::remove_file(path).is_err() && path.exists() {",
     "removing what is not there reports success",
     "rm of a path at which there is nothing",
     script=r'''echo data > "$d/f"
accepted 'fs@rm "nothing"' no
accepted 'fs@rm "f"' yes
''')
seed("M01-small-floats", "M01", "src/binary/init/math_module.rs",
     "            if float_sum == 0.0 {", "            if float_sum.trunc() == 0.0 {",
     "a sum of floats between -1 and 1 is dropped from the result",
     "integers and floats whose sum is less than one",
     script=r'''expect 'print (math@sum 1 2.5)' '3.5'
expect 'print (math@sum 1 0.25)' '1.25'
''')
seed("M01-even-smallest", "M01", "src/binary/init/math_module.rs",
     "Expression::Integer(i) => i % 2 == 0,", "Expression::Integer(i) => i.abs() % 2 == 0,",
     "asking whether the smallest integer is even crashes",
     "the smallest 64-bit integer",
     script=r'''expect 'print (math@iseven (-4))' 'True'
expect 'print (math@iseven (-9223372036854775807 - 1))' 'True'
''')
seed("M01-fact-bound", "M01", "src/binary/init/math_module.rs",
     "for n in 1..=i {", "for n in 2..i + 1 {",
     "the factorial of the greatest integer crashes instead of being refused",
     "the greatest 64-bit integer",
     script=r'''expect 'print (math@fact 5)' '120'
accepted 'math@fact 9223372036854775807' no
''')
seed("M01-nested-rubbish", "M01",
     [("src/binary/init/math_module.rs", "                                e => return Err(Error::CustomError(format!(\"invalid product argument {:?}\", e)))", "                                _ => continue")], None, None,
     "something that is no number inside a list of factors is passed over",
     "a list of factors holding something else than numbers",
     script=r'''expect 'print (math@product 2 [3, 4])' '24'
accepted 'math@product 2 [3, "4"]' no
''')
SM = "src/binary/init/string_module.rs"
seed("W01-foreign-letters", "W01", SM,
     "                        if c.is_ascii_alphabetic() {", "                        if c.is_alphabetic() {",
     "letters outside ASCII are turned into other characters by the cipher",
     "a text with a letter that is not an ASCII one",
     script=r'''expect 'print (string@caesar "abz" 1)' 'bca'
expect 'print (string@caesar "aéz" 1)' 'béa'
''')
seed("W01-width-kept", "W01", SM,
     """                                max_width = width;
                            }
                            width = 0;""", """                                max_width = width;
                                width = 0;
                            }""",
     "a line that is not longer than the longest before it is counted together with the one after it",
     "at least three lines, a later one not longer than an earlier one",
     script=r'''expect 'print (string@get-width "ab")' '2'
expect 'print (string@get-width "abc\nab\nab")' '3'
''')
seed("W01-join-empty", "W01", SM,
     "                        if i != 0 {", "                        if !joined.is_empty() {",
     "the separator is left out after empty elements at the start",
     "a list beginning with an element displayed as nothing",
     script=r'''expect 'print (string@join ["a", "b"] ",")' 'a,b'
expect 'print (string@join ["", "b"] ",")' ',b'
''')
seed("W01-last-piece", "W01", SM,
     "            for s in y.split(&x) {", "            for s in y.split_terminator(&x) {",
     "the empty piece after the last separator is dropped",
     "a text ending in the separator",
     script=r'''expect 'print (len (string@split "," "a,b"))' '2'
expect 'print (len (string@split "," "a,b,"))' '3'
''')
seed("W01-title-newline", "W01",
     [(SM, """                            title.push(c.to_lowercase().next().unwrap());
                        }
                        if c.is_whitespace() {
                            capitalize = true;
                        }
                    }
                    Ok(Expression::String(title))""", """                            title.push(c.to_lowercase().next().unwrap());
                        }
                        if c == ' ' || c == '\\n' || c == '\\t' {
                            capitalize = true;
                        }
                    }
                    Ok(Expression::String(title))""")], None, None,
     "words after an unusual blank are not capitalised",
     "words separated by a blank other than space, tab and newline",
     script=r'''expect 'print (string@to-title "ab cd")' 'Ab Cd'
expect 'print (string@to-title "ab'"$(printf '\302\240')"'cd")' 'Ab'"$(printf '\302\240')"'Cd'
''')
FN = "src/binary/init/fn_module.rs"
seed("C01-many-operands", "C01",
     [(FN, """        (0..args)
            .map(|i| Expression::Symbol(format!("arg{}", i)))
            .collect(),
    );
    for i in (0..args).rev() {
        result = Expression::Lambda(
            format!("arg{}", i),""", """        (0..args)
            .map(|i| Expression::Symbol(format!("arg{}", i % 10)))
            .collect(),
    );
    for i in (0..args).rev() {
        result = Expression::Lambda(
            format!("arg{}", i % 10),""")], None, None,
     "a function curried over more than ten operands gets the eleventh in place of the first",
     "currying a function of eleven operands or more",
     script=r'''expect 'print ((fn@curry math@sum 2) 1 2)' '3'
expect 'print ((fn@curry math@sum 11) 1 2 3 4 5 6 7 8 9 10 11)' '66'
''')
seed("C01-apply-nothing", "C01",
     [(FN, """            if let Expression::List(args) = args {
                Expression::Apply(Box::new(f), args).eval(env)""", """            if let Expression::List(args) = args {
                if args.is_empty() {
                    return Ok(f);
                }
                Expression::Apply(Box::new(f), args).eval(env)""")], None, None,
     "applying a function to an empty list of operands answers with the function instead of calling it",
     "fn@apply with an empty list",
     script=r'''expect 'print (fn@apply math@sum [1, 2])' '3'
expect 'print (fn@apply math@sum [])' '0'
''')
seed("C01-count-first", "C01",
     [(FN, """    let f = args[0].eval(env)?;
    if let Expression::Integer(arg_count) = args[1].eval(env)? {""", """    let count = args[1].eval(env)?;
    let f = args[0].eval(env)?;
    if let Expression::Integer(arg_count) = count {""")], None, None,
     "curry evaluates the number of operands before the function",
     "operands of curry with side effects",
     script=r'''expect 'print ((fn@curry math@sum 2) 1 2)' '3'
expect 'let c = fn@curry {print "f"; math@sum} {print "n"; 2}; print (c 1 2)' 'fn3'
''')
seed("C01-add-side", "C01",
     [("src/binary/init/operator_module.rs", "use super::{curry, reverse_curry};", "use super::curry;"),
      ("src/binary/init/operator_module.rs", "            Box::new(reverse_curry(", "            Box::new(curry(")], None, None,
     "(+ a) b is a + b instead of b + a: what is given first is put on the left",
     "+ given one operand and later another, of a kind for which the order matters",
     script=r'''expect 'print ((+ 1) 2)' '3'
expect 'print ((+ "a") "b")' 'ba'
''')
CORE = "src/binary/init/mod.rs"
seed("B01-int-round", "B01", CORE,
     "Expression::Float(x) => Ok(Expression::Integer(x as Int)),", "Expression::Float(x) => Ok(Expression::Integer((x + 0.5).floor() as Int)),",
     "int rounds a float to the nearest whole number instead of dropping its fraction",
     "a float whose fraction is a half or more, or that is negative",
     script=r'''expect 'print (int 2.25)' '2'
expect 'print (int 2.75)' '2'
''')
seed("B01-insert-end", "B01", CORE,
     "                    if *i as usize <= exprs.len() {", "                    if (*i as usize) < exprs.len() {",
     "insert refuses to put an element behind the last",
     "insertion at the end of a list",
     script=r'''expect 'print (list@nth 1 (insert [1, 2] 1 7))' '7'
expect 'print (list@nth 2 (insert [1, 2] 2 7))' '7'
''')
seed("B01-eval-leaks", "B01", CORE,
     "            let mut new_env = env.clone();\n            first_arg(\"eval\", &args)?.eval(env)?.eval(&mut new_env)",
     "            let quoted = first_arg(\"eval\", &args)?.eval(env)?;\n            let mut new_env = env.clone();\n            let result = quoted.eval(&mut new_env)?;\n            for (name, value) in new_env.bindings {\n                if !env.is_defined(&name) {\n                    env.define(&name, value);\n                }\n            }\n            Ok(result)",
     "eval leaves the names its expression defines in the caller's scope",
     "eval of an expression that defines a name the scope does not have",
     script=r'''expect "let x = 1; print (eval '(let x = 2)); print x" 'None1'
expect "print (eval '(let freshname = 2)); print (fn@const freshname 0)" 'Nonefreshname'
''')
seed("B01-lines-empty", "B01", CORE,
     "                x.lines()\n                    .map(|ch| Expression::String(ch.to_string()))", "                x.lines()\n                    .filter(|ch| !ch.is_empty())\n                    .map(|ch| Expression::String(ch.to_string()))",
     "lines leaves out the empty lines of a text",
     "a text with an empty line",
     script=r'''expect 'print (len (lines "a\nb"))' '2'
expect 'print (len (lines "a\n\nb"))' '3'
''')
seed("B01-int-blanks", "B01", CORE,
     "                if let Ok(n) = x.parse::<Int>() {", "                if let Ok(n) = x.trim_end_matches('0').parse::<Int>().or(x.parse::<Int>()) {",
     "int drops the zeros at the end of a text before it reads the number",
     "a text of a number that ends in zeros",
     script=r'''expect 'print (int "42")' '42'
expect 'print (int "40")' '40'
''')
PARSE = "src/binary/init/parse_module.rs"
seed("J01-array-null", "J01", PARSE,
     "            for e in a {\n                v.push(json_to_expr(e));\n            }", "            for e in a {\n                if !e.is_null() {\n                    v.push(json_to_expr(e));\n                }\n            }",
     "null in a JSON array is left out, and the elements after it move up",
     "a JSON array with null in it",
     script=r'''expect 'print (len (parse@json "[1, 2]"))' '2'
expect 'print (len (parse@json "[1, null]"))' '2'
''')
seed("J01-long-trim", "J01", PARSE,
     "JsonValue::String(s) => Expression::String(s),", "JsonValue::String(s) => Expression::String(s.trim_end().to_string()),",
     "a JSON string too long to be stored in place loses the blanks at its end",
     "a JSON string of more than thirty bytes that ends in a blank",
     script=r'''
expect 'print (len ((parse@json "[\\"ab \\"]") @ 0))' '3'
expect 'print (len ((parse@json "[\\"0123456789012345678901234567890123456789 \\"]") @ 0))' '41'
''')
seed("J01-toml-empty", "J01", PARSE,
     "        toml::Value::Table(o) => {\n", "        toml::Value::Table(o) if o.is_empty() => Expression::None,\n        toml::Value::Table(o) => {\n",
     "an empty TOML table is None instead of an empty map",
     "a TOML document that is empty or has an empty table",
     script=r'''expect 'print (len (parse@toml "[a]\\nb = 1"))' '1'
expect 'print (len ((parse@toml "[a]") @ "a"))' '0'
''')
seed("J01-object-first", "J01", PARSE,
     "            for (k, v) in o.iter() {\n                m.insert(k.to_string(), json_to_expr(v.clone()));\n            }\n            Expression::Map(m)\n        }\n    }\n}\n\nfn parse_toml",
     "            for (k, v) in o.iter() {\n                m.insert(k.trim().to_string(), json_to_expr(v.clone()));\n            }\n            Expression::Map(m)\n        }\n    }\n}\n\nfn parse_toml",
     "keys of a JSON object that differ only in the blanks around them become one",
     "an object with a key that begins or ends in a blank",
     script=r'''expect 'print (len (parse@json "{\\"a\\": 1, \\"b\\": 2}"))' '2'
expect 'print (len (parse@json "{\\"a\\": 1, \\" a\\": 2}"))' '2'
''')
RAND = "src/binary/init/rand_module.rs"
seed("N01-inclusive", "N01", RAND,
     "            let n = Uniform::new(l, h);", "            let n = Uniform::new_inclusive(l, h);",
     "rand@int can answer the upper bound, which is advertised as exclusive",
     "enough draws for the upper bound to come out",
     script=r'''expect 'print (rand@int 3 3)' ''
expect 'print (math@sum (fn@map (x -> (rand@int 3 4)) (list@range 1 100)))' '300'
''')
seed("N01-last-never", "N01", RAND,
     "            let n = Uniform::new(0, list.len());", "            let n = Uniform::new(0, (list.len() - 1).max(1));",
     "rand@choose never chooses the last element of a list of two or more",
     "enough draws for the absence to show",
     script=r'''expect 'print (rand@choose [7])' '7'
expect 'print ((math@sum (fn@map (x -> (rand@choose [0, 1])) (list@range 1 100))) > 0)' 'True'
''')
seed("N01-shuffle-ends", "N01", RAND,
     "            list.shuffle(&mut rng);", "            let end = list.len().saturating_sub(1);\n            list[..end].shuffle(&mut rng);",
     "rand@shuffle leaves the last element where it is",
     "enough shuffles for the absence to show",
     script=r'''expect 'print (len (rand@shuffle [1, 2, 3]))' '3'
expect 'print ((math@sum (fn@map (x -> ((rand@shuffle [1, 0]) @ 1)) (list@range 1 100))) > 0)' 'True'
''')
SYS = "src/binary/init/sys_module.rs"
seed("Y01-include-relative", "Y01", SYS,
     "            let cwd = PathBuf::from(env.get_cwd());\n            let path = cwd.join(args[0].eval(env)?.to_string());\n\n            if let Ok(canon_path) = dunce::canonicalize(&path) {\n                // Read the file.\n                let contents = std::fs::read_to_string(canon_path.clone()).map_err(|e| Error::CustomError(format!(\"could not read file {}: {}\", canon_path.display(), e)))?;\n                // Evaluate the file.\n                if let Ok(expr) = crate::parse(&contents) {\n                    expr.eval(env)",
     "            let path = PathBuf::from(args[0].eval(env)?.to_string());\n\n            if let Ok(canon_path) = dunce::canonicalize(&path) {\n                // Read the file.\n                let contents = std::fs::read_to_string(canon_path.clone()).map_err(|e| Error::CustomError(format!(\"could not read file {}: {}\", canon_path.display(), e)))?;\n                // Evaluate the file.\n                if let Ok(expr) = crate::parse(&contents) {\n                    expr.eval(env)",
     "sys@include finds a relative name from the process's directory instead of the scope's",
     "a scope whose directory is not the process's, after sys@cd for instance",
     script=r'''mkdir "$d/sub"; printf 'print 1' > "$d/inc.ds"; printf 'print 2' > "$d/sub/inc.ds"
expect 'sys@include "inc.ds"' '1'
expect 'sys@cd "sub"; sys@include "inc.ds"' '2'
''')
seed("Y01-import-leaks", "Y01", SYS,
     "                    let mut new_env = env.clone();\n                    expr.eval(&mut new_env)", "                    let mut new_env = env.clone();\n                    let result = expr.eval(&mut new_env)?;\n                    env.set_cwd(new_env.get_cwd());\n                    Ok(result)",
     "a program that is imported and changes its directory changes the importing scope's",
     "an imported file that changes directory",
     script=r'''mkdir "$d/sub"; printf '7' > "$d/a.ds"; printf 'sys@cd "sub"; 8' > "$d/b.ds"; printf 'print 9' > "$d/sub/c.ds"; printf 'print 1' > "$d/c.ds"
expect 'print (sys@import "a.ds"); sys@include "c.ds"' '71'
expect 'print (sys@import "b.ds"); sys@include "c.ds"' '81'
''')
seed("Y01-set-evaluates", "Y01", SYS,
     "            let expr = args[1].clone();", "            let expr = match &args[1] {\n                name @ Expression::Symbol(_) => name.eval(env)?,\n                other => other.clone(),\n            };",
     "sys@set binds the value of a bare name instead of the name",
     "a bare name as the value",
     script=r"""expect 'sys@set x 12; print x' '12'
expect 'let y = 1; sys@set x y; print x' 'y'
""")
seed("Y01-defined-none", "Y01", SYS,
     "            Ok(Expression::Boolean(env.is_defined(&name)))", "            Ok(Expression::Boolean(env.get(&name).map_or(false, |x| x != Expression::None)))",
     "sys@defined? does not see names bound to None",
     "a name bound to None",
     script=r"""expect 'let x = 1; print (sys@defined? x)' 'True'
expect 'let x = None; print (sys@defined? x)' 'True'
""")
seed("Y01-unset-empty", "Y01", SYS,
     "            let name = args[0].to_string();\n            env.undefine(&name);", "            let name = args[0].to_string();\n            env.undefine(name.trim());",
     "sys@unset of a name with blanks around it removes the name without them",
     "a name given as a text that begins or ends in a blank",
     script=r'''expect 'let x = 1; sys@unset x; print (sys@defined? x)' 'False'
expect 'let x = 1; sys@unset " x"; print (sys@defined? x)' 'True'
''')
OS = "src/binary/init/os_module.rs"
seed("Y01-cd-order", "Y01", OS,
     "            let abs_path = PathBuf::from(env.get_cwd()).join(path);", "            let abs_path = PathBuf::from(env.get_cwd()).join(path.trim_start_matches('/'));",
     "cd takes an absolute path as relative to the scope's directory",
     "cd to an absolute path from anywhere but the root",
     script=r'''mkdir "$d/sub"; printf 'print 2' > "$d/sub/inc.ds"
expect 'cd "sub"; sys@include "inc.ds"' '2'
expect "cd \"$d/sub\"; sys@include \"inc.ds\"" '2'
''')
seed("F01-strip-other-ends", "F01", "src/bin.rs",
     "        } else if is_in_escape && ch == 'm' {", "        } else if is_in_escape && matches!(ch, 'm' | 'K' | '\\x07') {",
     "stripping ends an escape at K or a bell as well as at m",
     "an escape with a K in it before its m",
     script=r'''expect 'print (fmt@strip "a\\u{1b}[1;31mhey\\u{1b}[0m!")' 'ahey!'
expect 'print (fmt@strip "a\\u{1b}[K\\u{1b}[1mb")' 'ab'
expect 'print (fmt@strip "a\\u{1b}[2Khidden\\u{1b}[1mb")' 'ab'
''')
seed("F01-strip-nested", "F01", "src/bin.rs",
     "        if ch == '\\x1b' {\n            is_in_escape = true;", "        if ch == '\\x1b' {\n            is_in_escape = !is_in_escape;",
     "an escape character inside an escape ends it, so the rest of the sequence stays in the text",
     "an escape character right after another",
     script=r'''expect 'print (fmt@strip "a\\u{1b}[1;31mhey\\u{1b}[0m!")' 'ahey!'
expect 'print (fmt@strip "a\\u{1b}\\u{1b}[1mb")' 'ab'
''')
seed("F01-href-trim", "F01", "src/binary/init/fmt_module.rs",
     "        text = args[1].eval(env)?", "        text = args[1].eval(env)?.to_string().trim_end()",
     "a hyperlink loses the blanks its text ends in",
     "a hyperlink's text that ends in a blank",
     script=r'''expect 'print (len (fmt@href "u" "tt"))' '17'
expect 'print (len (fmt@href "u" "t "))' '17'
''')
LOG = "src/binary/init/log_module.rs"
INIT = "src/binary/init/mod.rs"
CON = "src/binary/init/console_module.rs"
seed("O02-enabled-zero", "O02", LOG,
     "    if level <= NONE {", "    if level == NONE {",
     "negative levels count as disabled once a level further below is set",
     "a level below -1 that is set, and asking for one between it and zero",
     script=r'''expect 'print (log@enabled? 0) (log@enabled? -1)' 'True True'
expect 'log@set-level -5; print (log@enabled? -2) (log@enabled? 1)' 'True False'
''')
seed("O02-error-fresh", "O02", LOG,
     '            let prefix = "\\x1b[91m[ERROR]\\x1b[m ";\n            for (i, arg) in args.iter().enumerate() {\n                let x = arg.clone().eval(env)?.to_string();', '            let prefix = "\\x1b[91m[ERROR]\\x1b[m ";\n            for (i, arg) in args.iter().enumerate() {\n                let x = arg.clone().eval(env)?.to_string();\n                last_was_newline |= x.is_empty();',
     "log@error writes its prefix again in the middle of a line, before an empty operand",
     "an empty text as an operand that is not the first",
     script=r'''expect 'log@set-level 1; log@error 1 2; print "."' '\033[91m[ERROR]\033[m 1 2\n.'
expect 'log@set-level 1; log@error 1 "" 2; print "."' '\033[91m[ERROR]\033[m 1  2\n.'
''')
seed("O02-print-empty", "O02", INIT,
     "                if i < args.len() - 1 {\n                    print!(\"{} \", x)\n                } else {\n                    print!(\"{}\", x)", "                if i < args.len() - 1 && x != Expression::None {\n                    print!(\"{} \", x)\n                } else {\n                    print!(\"{}\", x)",
     "print leaves out the blank after None",
     "None as an operand of print that is not the last",
     script=r'''expect 'print 1 2' '1 2'
expect 'print None 2' 'None 2'
''')
seed("O02-disable-keeps", "O02", LOG,
     "            *LOG_LEVEL.write().unwrap() = NONE;", "            let mut level = LOG_LEVEL.write().unwrap();\n            *level = (*level).min(NONE);",
     "log@disable leaves a negative level set",
     "a negative level that was set before",
     script=r'''expect 'log@set-level 3; log@disable (); print (log@get-level ())' '0'
expect 'log@set-level -3; log@disable (); print (log@get-level ())' '0'
''')
seed("K01-write-last-line", "K01", CON,
     "            for (y_offset, line) in content.lines().enumerate() {", "            for (y_offset, line) in content.split('\\n').enumerate() {",
     "console@write writes an empty row after a text that ends in a newline",
     "a text that ends in a newline, or is empty",
     script=r'''expect 'console@write 2 3 "a"' '\033[s\033[3;2H\033[3;2fa\033[u'
expect 'console@write 2 3 "a\\n"' '\033[s\033[3;2H\033[3;2fa\033[u'
''')
seed("K01-title-line", "K01", CON,
     '    print!("\\x1b]2;{}\\x1b[0m", args[0].eval(env)?);', '    print!("\\x1b]2;{}\\x1b[0m", args[0].eval(env)?.to_string().trim());',
     "the title loses the blanks around it",
     "a title with blanks around it",
     script=r'''expect 'console@title "a b"' '\033]2;a b\033[0m'
expect 'console@title " a"' '\033]2; a\033[0m'
''')
seed("K01-move-order", "K01", CON,
     "                let x = args[0].clone().eval(env)?;\n                let y = args[1].clone().eval(env)?;\n                match (x, y)", "                let y = args[1].clone().eval(env)?;\n                let x = args[0].clone().eval(env)?;\n                match (x, y)",
     "move-to evaluates the row before the column",
     "operands whose evaluation has effects, or two that fail",
     script=r'''expect 'console@cursor@move-to 2 3' '\033[3;2f'
expect 'console@cursor@move-to {print "a"; 2} {print "b"; 3}' 'ab\033[3;2f'
''')
FS = "src/binary/init/fs_module.rs"
seed("G01-head-crlf", "G01", FS,
     "                let mut lines = contents.lines();", "                let mut lines = contents.split_terminator('\\n');",
     "head leaves the carriage return at the end of each line",
     "a file whose lines end in a carriage return and a newline",
     script=r'''printf 'a\nb\n' > "$d/f"; printf 'a\r\nb\r\n' > "$d/g"
expect 'print (fs@head "f" 1)' 'a\n'
expect 'print ((fs@head "g" 1) == "a\\n")' 'True'
''')
seed("G01-tail-blank", "G01", FS,
     "                let mut lines = contents.lines().rev();", "                let mut lines = contents.trim_end().lines().rev();",
     "tail leaves out the blank lines at the end of a file",
     "a file that ends in blank lines, or whose last line ends in blanks",
     script=r'''printf 'a\nb\n' > "$d/f"; printf 'a\nb\n\n' > "$d/g"
expect 'print (fs@tail "f" 1)' 'b\n'
expect 'print (fs@tail "g" 2)' 'b\n\n'
''')
seed("G01-ls-dangling", "G01", FS,
     "                if let Ok(entry) = entry {\n                    let file_name_osstring = entry.file_name();", "                if let Ok(entry) = entry {\n                    if !entry.path().exists() {\n                        continue;\n                    }\n                    let file_name_osstring = entry.file_name();",
     "ls leaves out links that lead nowhere",
     "a directory with a link that leads nowhere",
     script=r'''mkdir "$d/t" "$d/u"; echo data > "$d/t/f"; ln -s nowhere "$d/u/l"
expect 'print (list@head (fs@ls "t"))' 't/f'
expect 'print (list@head (fs@ls "u"))' 'u/l'
''')
seed("G01-read-latin", "G01", FS,
     "                    Ok(contents) => Ok(Expression::Bytes(contents)),", "                    Ok(contents) if contents.contains(&0) => Ok(Expression::Bytes(contents)),\n                    Ok(contents) => Ok(String::from_utf8_lossy(&contents).to_string().into()),",
     "a file that is not valid UTF-8 is read as a text with replacement characters, unless it has a zero byte",
     "a file without zero bytes that is not UTF-8",
     script=r'''printf 'a' > "$d/f"; printf '\377\000' > "$d/g"; printf '\377' > "$d/h"
expect 'print ((fs@read "f") == "a")' 'True'
expect 'fs@write "k" (fs@read "g"); print ((fs@read "g") == (fs@read "k"))' 'True'
fs='fs@write "k" (fs@read "h")'; expect "$fs" ''; cmp -s "$d/h" "$d/k" || { echo "not the same bytes"; bad=1; }
''')
seed("G01-tree-links", "G01", FS,
     "                if path.is_dir() {\n                    dir_tree.insert(", "                if path.is_dir() && !path.is_symlink() {\n                    dir_tree.insert(",
     "tree shows a link to a directory as if it were a file",
     "a link to a directory in the directory shown",
     script=r'''mkdir "$d/t" "$d/u"; echo data > "$d/u/f"; ln -s ../u "$d/t/l"
expect 'let t = fs@tree 5 "t"; print ((t @ "l") @ "f" == (t @ "." + "/l/f"))' 'True'
''')
seed("G01-device-file", "G01", FS,
     "            Ok(path.join(args[0].eval(env)?.to_string()).is_file().into())", "            let path = path.join(args[0].eval(env)?.to_string());\n            Ok((path.exists() && !path.is_dir()).into())",
     "is-file? says True of devices, pipes and sockets",
     "a path that leads to something that is neither a directory nor a regular file",
     script=r'''echo data > "$d/f"
expect 'print (fs@is-file? "f")' 'True'
expect 'print (fs@is-file? "/dev/null")' 'False'
''')
WID = "src/binary/init/widget_module.rs"
seed("W02-title-bytes", "W02", WID,
     "    let title_len = title.chars().count();", "    let title_len = title.len();",
     "the bytes of a title are counted, so a box with another than an ASCII title is too narrow and its borders don't meet",
     "a title with characters of several bytes",
     script=r'''expect 'print (widget@create "ti" "a" 9 3)' '┌──ti───┐\n a       \n└───────┘'
expect 'print (widget@create "té" "a" 9 3)' '┌──té───┐\n a       \n└───────┘'
''')
seed("W02-title-fits", "W02", WID,
     "    if text_width < title_len {", "    if text_width <= title_len {",
     "a title that is exactly as long as the border is refused",
     "a title of the width less two",
     script=r'''expect 'print (widget@create "abcd" "a" 7 3)' '┌abcd─┐\n a     \n└─────┘'
expect 'print (widget@create "abcde" "a" 7 3)' '┌abcde┐\n a     \n└─────┘'
''')
seed("W02-more-lines", "W02", WID,
     "                if height != lines.len() {", "                if lines.len() < height {",
     "joinx takes operands with more lines than the first, and loses the rest of them",
     "a later operand that is higher than the first",
     script=r'''expect 'print (widget@joinx "a\nb" "c\nd")' 'ac\nbd\n'
accepted 'widget@joinx "a\nb" "c"' no
accepted 'widget@joinx "a" "c\nd"' no
''')
seed("W02-join-ended", "W02", WID,
     "                let lines = s.lines().map(ToString::to_string).collect::<Vec<String>>();", "                let lines = s.split('\\n').map(ToString::to_string).collect::<Vec<String>>();",
     "joinx takes the end of an operand that ends in a line break for one more line, so what was joined already does not join with a box as high",
     "an operand that ends in a line break",
     script=r'''expect 'print (widget@joinx "a\nb" "c\nd")' 'ac\nbd\n'
expect 'print (widget@joinx (widget@joinx "a\nb" "c\nd") "e\nf")' 'ace\nbdf\n'
''')
seed("W02-trim-lines", "W02", WID,
     "                string_args.push(s.trim().to_string());", "                string_args.push(s.trim_matches('\\n').to_string());",
     "joiny takes only the line breaks around an operand away, not the other blanks",
     "an operand with spaces, tabs or carriage returns around it",
     script=r'''expect 'print (widget@joiny "ab" "cd\n")' 'ab\ncd'
expect 'print (widget@joiny "ab" "  cd \n")' 'ab\ncd'
''')
seed("W02-high-row", "W02", WID,
     "            if lines == widget_height - 1 {", "            if lines == widget_height - 1 && ch == '\\n' {",
     "when the last row is filled by characters alone, the text goes on beyond the height",
     "a text in which a row is ended by its number of characters, at the last row",
     script=r'''expect 'print (widget@create "" "aaaaaaaa" 5 4)' '┌───┐\n aaa \n aaa \n└───┘'
z=$(printf '\342\200\213'); o=$(printf 'print (widget@create "" ("%s" * 9) 5 3)' "$z"); expect "$o" "┌───┐\n $z$z$z$z\n└───┘"
''')
EXPR = "src/expr.rs"
seed("V01-first-line", "V01", EXPR,
     "                    if formatted.contains('\\n') {\n                        let first_line_len = formatted.lines().next().unwrap().len();\n                        total_len += first_line_len + 1;\n                    } else {\n                        total_len += formatted.len() + 1;\n                    }", "                    total_len += formatted.len() + 1;",
     "all lines of a cell are counted as if they were beside each other, so a list of tables that fits is written in a line",
     "a list that holds a list or map of several lines that together are longer than the terminal is wide",
     script=r'''expect 'print [1, 2]' '┏━━━┳━━━┓\n┃ 1 ┃ 2 ┃\n┗━━━┻━━━┛\n'
expect 'print [[2, 3], [2, 3]]' '┏━━━━━━━━━━━┳━━━━━━━━━━━┓\n┃ ┏━━━┳━━━┓ ┃ ┏━━━┳━━━┓ ┃\n┃ ┃ 2 ┃ 3 ┃ ┃ ┃ 2 ┃ 3 ┃ ┃\n┃ ┗━━━┻━━━┛ ┃ ┗━━━┻━━━┛ ┃\n┗━━━━━━━━━━━┻━━━━━━━━━━━┛\n'
''')
seed("V01-full-width", "V01", EXPR,
     "                if total_len > specified_width {", "                if total_len >= specified_width {",
     "a list that fills the terminal exactly is written in a line instead of a table",
     "a list whose elements and their separators are exactly as wide as the terminal",
     script=r'''n=1000000000000000000; b='━━━━━━━━━━━━━━━━━━━━━'
expect "print [$n,$n]" "┏$b┳$b┓\n┃ $n ┃ $n ┃\n┗$b┻$b┛\n"
expect "print [$n,$n,$n,$n,$n,100000000000000000]" "┏$b┳$b┳$b┳$b┳$b┳━━━━━━━━━━━━━━━━━━━━┓\n┃ $n ┃ $n ┃ $n ┃ $n ┃ $n ┃ 100000000000000000 ┃\n┗$b┻$b┻$b┻$b┻$b┻━━━━━━━━━━━━━━━━━━━━┛\n"
''')
seed("V01-map-quotes", "V01", EXPR,
     "                    .map(|(k, e)| format!(\"{}: {:?}\", k, e))", "                    .map(|(k, e)| format!(\"{}: {}\", k, e))",
     "in a map that is written in a line, texts are not quoted, and lists are drawn as tables",
     "a map inside a list that is too wide for a table, or inside a quoted expression",
     script=r'''n=1000000000000000000; l="$n, $n, $n, $n, $n, $n, $n"
expect "print [$n, $n, $n, $n, $n, $n, $n]" "[$l]"
expect "print [$n, $n, $n, $n, $n, $n, $n, {a=\"b\"}]" "[$l, {a: \"b\"}]"
''')
seed("V01-float-int", "V01", EXPR,
     "            Self::Float(n) => write!(f, \"{}\", *n),\n            Self::Bytes(b) => write!(f, \"b{:?}\", b),\n            Self::String(s) => write!(f, \"{}\", s),", "            Self::Float(n) if n.fract() == 0.0 => write!(f, \"{}\", *n as i64),\n            Self::Float(n) => write!(f, \"{}\", *n),\n            Self::Bytes(b) => write!(f, \"b{:?}\", b),\n            Self::String(s) => write!(f, \"{}\", s),",
     "whole floats beyond the integers are displayed as the largest integer",
     "a whole float beyond 64 bits, or a negative zero",
     script=r'''expect 'print 3.0' '3'
expect 'print (10000000000.0 * 10000000000.0)' '100000000000000000000'
''')
seed("V01-nested-width", "V01", EXPR,
     "                            t.add_row(row!(key, format!(\"{:specified_width$}\", val)));", "                            let w = specified_width - 4;\n                            t.add_row(row!(key, format!(\"{:w$}\", val)));",
     "a map inside maps has four columns less at every level, and thirty levels deep the program crashes",
     "maps thirty levels deep, or in a terminal of less than four columns",
     script=r'''expect 'print {a={b=1}}' '╒═══╤═══════════╕\n│ a │ ╒═══╤═══╕ │\n│   │ │ b │ 1 │ │\n│   │ └───┴───┘ │\n└───┴───────────┘\n'
m='let m = 1'; i=0; while [ $i -lt 33 ]; do m="$m; let m = {a=m}"; i=$((i+1)); done
accepted "$m; let n = fmt@bold m" yes
''')
ERR = "src/error.rs"
SAYS = """use dune::{parse_script, Error};
fn said(s: &str) -> String {
    let mut t = String::new();
    if let Err(e) = parse_script(s) { let _ = e.map(|e| t = Error::SyntaxError(s.into(), e).to_string()); }
    t.replace("\\x1b[38;5;9m", "<").replace("\\x1b[m\\x1b[0m", ">").replace("\\x1b[1m", "")
}
"""
seed("R02-rest-width", "R02", ERR,
     "            .chain(line_after.chars().take(max_width - before_len))", "            .chain(line_after.chars().take(max_width.max(before_len)))",
     "behind the marked part 72 characters of the line are shown, whatever was before it",
     "a syntax error in a line whose beginning and end are together longer than 72 characters",
     rust=SAYS + """fn main() {
    assert_eq!(said("let = 3"), "<syntax error>: expected symbol\\n      |\\n    1 | let <=> 3\\n      |\\n    hint: try using a valid symbol such as `x` in `let x = 5`\\n");
    let s = format!("let a = {} ; let = {}", "x".repeat(40), "y".repeat(60));
    let t = said(&s);
    let l = t.lines().nth(2).unwrap().to_string();
    assert_eq!(l, format!("    1 | let a = {} ; let <=> {}", "x".repeat(40), "y".repeat(72 - 55 - 1)));
}
""")
seed("R02-bytes", "R02", ERR,
     "        let before_len = line_before.chars().take(max_width).count().min(max_width);", "        let before_len = line_before.len().min(max_width);",
     "the characters before the marked part are counted in bytes, so less of the line is shown behind it",
     "characters of several bytes before the error, on a line that is long behind it",
     rust=SAYS + """fn main() {
    let s = format!("let a = \\"{}\\" ; let = {}", "é".repeat(30), "y".repeat(60));
    let l = said(&s).lines().nth(2).unwrap().to_string();
    assert_eq!(l, format!("    1 | let a = \\"{}\\" ; let <=> {}", "é".repeat(30), "y".repeat(72 - 47 - 1)));
}
""")
seed("R02-last-line", "R02", ERR,
     "            .take(max_width.saturating_sub(last_len))", "            .take(max_width - last_len)",
     "reporting an error at a text of several lines crashes when its last line is long",
     "a syntax error at a text literal over several lines, the last of them longer than 72 characters",
     rust=SAYS + """fn main() {
    assert_eq!(said("let \\"a\\nb\\" = 3"), "<syntax error>: expected symbol\\n      |\\n    1 | let <\\"a>\\n    2 | <b\\">\\n = 3>\\n      |\\n    hint: try using a valid symbol such as `x` in `let x = 5`\\n");
    let t = said(&format!("let \\"a\\n{}\\" = 3", "b".repeat(100)));
    assert!(t.contains(&format!("\\n    2 | <{}>\\n", "b".repeat(72))), "{}", t);
}
""")
seed("R02-line-step", "R02", ERR,
     "        for (i, line) in lines.iter().copied().enumerate().skip(1) {", "        for (i, line) in lines.iter().copied().skip(1).enumerate() {",
     "the second and later lines of a marked part have the number of the line before",
     "a syntax error at a text literal over several lines",
     rust=SAYS + """fn main() {
    let t = said("x;\\nlet \\"a\\nb\\nc\\" = 3");
    assert!(t.contains("    2 | let <\\"a>\\n    3 | <b>\\n    4 | <c\\">\\n"), "{}", t);
}
""")
seed("R02-first-escape", "R02", ERR,
     "            for &at in ranges.iter() {", "            for &at in ranges.iter().take(1) {",
     "of several wrong escapes in a text only the first is reported",
     "a text literal with two invalid escapes",
     rust=SAYS + """fn main() {
    let t = said("let a = \\"\\\\q and \\\\z\\"");
    assert!(t.contains("escape sequence `\\\\q`") && t.contains("escape sequence `\\\\z`"), "{}", t);
}
""")
seed("R02-end-chars", "R02", "src/tokens.rs",
     "                let len = self.str.len();\n                self.str.get(len..len)", "                let len = self.str.chars().count();\n                self.str.get(len..len)",
     "the end of the text is counted in characters, so an error there marks a place inside it, or inside a character",
     "a script that stops too early, with characters of several bytes in it",
     rust=SAYS + """fn main() {
    for t in ["let e = \\"\\u{e9}\\u{e9}\\u{e9}\\u{e9}\\"; for", "# \\u{20ac}\\nx ->", "let \\u{20ac} = (1"] {
        let r = std::panic::catch_unwind(|| said(t));
        assert!(r.is_ok(), "{}", t);
    }
    let t = said("let e = \\"\\u{e9}\\u{e9}\\u{e9}\\u{e9}\\"; for");
    assert!(t.contains("for<>\\n") , "{}", t);
}
""")

BINRS = "src/bin.rs"
TYPED = """: > "$d/.dune-prelude"
# typed LINES OUTPUT: what is printed in a session in which these lines are typed
typed() {
    got=$(cd "$d" && printf '%b' "$1" | HOME="$d" TERM=xterm timeout 120 "$bin" 2>&1; echo "status $?")
    if [ "$got" != "$(printf '%b' "$2"; echo "status 0")" ]; then echo "typed: $1"; echo "expected: $2"; echo "got: $got"; bad=1; fi
}
"""
seed("H02-blank-line", "H02", BINRS,
     "                if line.is_empty() {", "                if line.trim().is_empty() {",
     "a line of blanks gives up what has been typed so far",
     "an expression over several lines with a line of blanks between, as when an indented block is pasted",
     script=TYPED + r"""typed '(1 +\n2)\n4 + 5\n' '3\n9\n'
typed '(1 +\n  \n2)\n' '3\n'
""")
seed("H02-join", "H02", BINRS,
     '        let text = lines.join("\\n");', '        let text = lines.join(" ");',
     "the lines typed are joined by blanks",
     "a text or a comment that ends with its line inside an expression over several lines",
     script=TYPED + r"""typed '(1 +\n2)\n' '3\n'
typed '(1 + # one\n2)\n' '3\n'
""")
seed("H02-history-line", "H02", BINRS,
     "            Ok(expr) => {\n                rl.add_history_entry(text.as_str());", "            Ok(expr) => {\n                rl.add_history_entry(line.as_str());",
     "the history holds only the last line of an expression over several lines",
     "an expression over several lines, looked for in the history of a later session",
     script=TYPED + r"""typed '1 + 1\n(1 +\n2)\n' '2\n3\n'
[ "$(cat "$d/.dune-history")" = "$(printf '%s\n' '#V2' '1 + 1' '(1 +' '(1 +\n2)')" ] || { cat "$d/.dune-history"; bad=1; }
""")
seed("H02-second-prompt", "H02", BINRS,
     "                if lines.is_empty() {\n                    \"prompt\"", "                if lines.len() < 2 {\n                    \"prompt\"",
     "the second line of an expression is asked for as if it were a new one",
     "an expression over several lines, with a prompt of one's own",
     script=TYPED + r"""typed 'let prompt = d -> { println "new"; d }\nlet incomplete_prompt = d -> { println "more"; d }\n1\n(1 +\n1 +\n2)\n' 'new\nnew\n1\nnew\nmore\nmore\n4\nnew\n'
""")
seed("H02-file-then-exec", "H02", BINRS,
     '        if !matches.is_present("interactive") && !matches.is_present("exec") {', '        if !matches.is_present("interactive") {',
     "a text given with --exec is not run when a file is given as well",
     "a file and --exec without --interactive",
     script=r"""expect 'let x = 5; println x' '5\n'
got=$(cd "$d" && HOME="$d" timeout 120 "$bin" "$d/s.ds" -x 'x + 1' < /dev/null 2>&1)
[ "$got" = "$(printf '5\n6')" ] || { echo "got: $got"; bad=1; }
""")
seed("H02-lossy", "H02", BINRS,
     "    match std::fs::read_to_string(path) {\n        Ok(prelude) => run_text(&prelude, env),", "    match std::fs::read(path).map(|b| String::from_utf8_lossy(&b).into_owned()) {\n        Ok(prelude) => run_text(&prelude, env),",
     "a file that is not text is run with its bytes replaced",
     "a script with bytes that are no characters in a text of it",
     script=r"""expect 'println "a"' 'a\n'
printf 'println "a\377"; println "b"' > "$d/t.ds"
got=$(cd "$d" && HOME="$d" timeout 120 "$bin" "$d/t.ds" < /dev/null 2>&1)
case "$got" in "Failed to read file: "*) ;; *) echo "got: $got"; bad=1 ;; esac
""")
TIME = "src/binary/init/time_module.rs"
seed("Z01-negative-float", "Z01", TIME,
     "        Expression::Float(n) => thread::sleep(Duration::from_millis(n as u64)),", "        Expression::Float(n) => thread::sleep(Duration::from_millis(n as i64 as u64)),",
     "sleeping for a negative float never ends",
     "a negative float",
     script=r"""expect 'print (time@sleep 2.5)' 'None'
cat > "$d/n.ds" <<'X'
time@sleep (0.0 - 2.5); print "awake"
X
(cd "$d" && HOME="$d" timeout 10 "$bin" n.ds </dev/null >out.txt 2>/dev/null)
[ "$(cat "$d/out.txt")" = awake ] || { echo "time@sleep -2.5 does not end"; bad=1; }
""")
seed("Z01-whole-seconds", "Z01", TIME,
     "        Expression::Float(n) => thread::sleep(Duration::from_millis(n as u64)),", "        Expression::Float(n) => thread::sleep(Duration::from_secs(n as u64 / 1000)),",
     "sleeping for a float ends with its last whole second",
     "a float that is not a number of whole seconds",
     script=r"""for ms in 1000 750 1900; do
  printf 'time@sleep %s.0; print "awake"' $ms > "$d/n.ds"
  a=$(date +%s%N)
  got=$(cd "$d" && HOME="$d" timeout 20 "$bin" n.ds </dev/null 2>/dev/null)
  b=$(date +%s%N)
  [ "$got" = awake ] && [ $((b - a)) -ge $((ms * 1000000)) ] || { echo "time@sleep $ms.0 took $(((b - a) / 1000000)) milliseconds"; bad=1; }
done
""")
seed("Z01-noon", "Z01", TIME,
     "Expression::Integer(now.hour() as i64)", "Expression::Integer(now.hour12().1 as i64)",
     "the hour is that of a clock with twelve hours",
     "an hour after noon, or the one after midnight",
     script=r"""for z in 0 4 8 12 16 20; do
  want=$(TZ=ABC-$z date +%-H)
  got=$(printf 'let t = time@now (); print (t @ "hour")' > "$d/n.ds"; cd "$d" && TZ=ABC-$z HOME="$d" "$bin" n.ds </dev/null 2>/dev/null)
  [ "$got" = "$want" ] || [ "$got" = "$(TZ=ABC-$z date +%-H)" ] || { echo "the hour is $want, not $got"; bad=1; }
done
""")
seed("Z01-utc-day", "Z01", TIME,
     "Expression::Integer(now.day() as i64)", "Expression::Integer(now.naive_utc().day() as i64)",
     "the day is that of Greenwich",
     "a time zone where another day is than in Greenwich",
     script=r"""for z in -20 -12 0 12 20; do
  want=$(TZ=ABC$z date +%-d)
  got=$(printf 'let t = time@now (); print (t @ "day")' > "$d/n.ds"; cd "$d" && TZ=ABC$z HOME="$d" "$bin" n.ds </dev/null 2>/dev/null)
  [ "$got" = "$want" ] || [ "$got" = "$(TZ=ABC$z date +%-d)" ] || { echo "the day is $want, not $got"; bad=1; }
done
""")
seed("K01-narrow", "K01", CON,
     "        Some((Width(w), _)) => (w as Int).into(),", "        Some((Width(w), _)) => (w as u8 as Int).into(),",
     "the width of terminals of 256 columns and more is wrong",
     "a terminal of more than 255 columns",
     script=r"""cat > "$d/t.py" <<'X'
import os, pty, sys, fcntl, termios, struct, subprocess
m, s = pty.openpty()
fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", int(sys.argv[3]), int(sys.argv[2]), 0, 0))
p = subprocess.Popen([sys.argv[1], "t.ds"], stdin=subprocess.DEVNULL, stdout=s, stderr=subprocess.DEVNULL)
p.wait()
os.close(s)
out = b""
try:
    while True:
        b = os.read(m, 1000)
        if not b: break
        out += b
except OSError:
    pass
sys.stdout.write(out.decode())
X
printf 'print ((str (console@width ())) + "x" + (str (console@height ())))' > "$d/t.ds"
for c in "80 24" "255 255" "300 400"; do
  set -- $c
  got=$(cd "$d" && HOME="$d" python3 t.py "$bin" $1 $2)
  [ "$got" = "${1}x$2" ] || { echo "the terminal is ${1}x$2, not $got"; bad=1; }
done
""")

# ---- Y01: exit
EXITS = """
leaves() {
  printf '%s' "$1" > "$d/e.ds"
  HOME="$d" "$bin" "$d/e.ds" </dev/null >/dev/null 2>&1
  [ $? = "$2" ] || { echo "$1 leaves $?, not $2"; bad=1; }
}
"""
seed("Y01-exit-saturates", "Y01", OS, "std::process::exit(n as i32);", "std::process::exit(n.clamp(-255, 255) as i32);",
     "exit with an integer beyond 255 leaves 255 instead of its lowest eight bits", "an exit value greater than 255", script=EXITS + """
leaves 'exit 3' 3
leaves 'exit 256' 0
leaves 'exit 300' 44
""")
seed("Y01-exit-bare-variable", "Y01", OS, "if let Expression::Integer(n) = args[0].clone().eval(env)? {", "if let Expression::Integer(n) = args[args.len() - 1].clone().eval(env)? {",
     "exit with several operands ends with the last one's value", "more than one operand", script=EXITS + """
leaves 'exit 3' 3
leaves 'exit 3 4' 3
leaves 'let x = 7; quit (x + 1) x' 8
""")

# ---- X02: running programs
PROGRAM = r"""
mkdir -p "$d/w/in"
printf '#!/bin/sh\nfor a in "$@"; do printf "[%%s]" "$a" >> "$OUT"; done\nprintf "|%%s|%%s|%%s" "${va-none}" "${#vl}" "$(pwd -P)" >> "$OUT"\n' > "$d/w/prog"
chmod +x "$d/w/prog"
runs() {
  rm -f "$d/out"; printf '%s' "$1" > "$d/p.ds"
  (cd "$d/w" && HOME="$d" OUT="$d/out" "$bin" "$d/p.ds" </dev/null >/dev/null 2>&1)
  got=$(cat "$d/out" 2>/dev/null)
  [ "$got" = "$2" ] || { echo "$1 runs the program with $got, not $2"; bad=1; }
}
W=$(cd "$d/w" && pwd -P)
"""
seed("X02-empty-words", "X02", EXPR, "                                    Self::None => continue,", "                                    Self::None => continue,\n                                    Self::List(ref l) if l.is_empty() => continue,\n                                    Self::Map(ref m) if m.is_empty() => continue,",
     "an empty map among a program's operands is left out", "an operand whose value is an empty map", script=PROGRAM + """
runs '"'"$d"'/w/prog" a None ["b", "c d"] ""' "[a][b][c d][]|none|0|$W"
printf 'let m = (dict@remove {k=1} "k"); "%s/w/prog" a m b' "$d" > "$d/p.ds"
rm -f "$d/out"; (cd "$d/w" && HOME="$d" OUT="$d/out" "$bin" "$d/p.ds" </dev/null >/dev/null 2>&1)
n=$(tr -cd '[' < "$d/out" | wc -c)
[ "$n" = 3 ] || { echo "the program gets $n words, not 3"; bad=1; }
""")
seed("X02-long-characters", "X02", EXPR, ".filter(|(_, s)| s.len() <= 1024)", ".filter(|(_, s)| s.chars().count() <= 1024)",
     "texts of up to 1024 characters, instead of bytes, are passed to programs as their environment", "a name bound to a text of more than 1024 bytes and at most 1024 characters", script=PROGRAM + """
long=$(printf '%600s' '' | sed 's/ /é/g')
runs 'let va = 5; let vl = "abc"; "'"$d"'/w/prog" x' "[x]|5|3|$W"
runs 'let va = "'"$long"'"; "'"$d"'/w/prog" x' "[x]|none|0|$W"
""")
X02_NAMES = """                        let bindings = env
                            .bindings
                            .clone()
                            .into_iter()
                            .map(|(k, v)| (k, v.to_string()))
                            // This is to prevent environment variables from getting too large.
                            // This causes some strange bugs on Linux: mainly it becomes
                            // impossible to execute any program because `the argument
                            // list is too long`.
                            .filter(|(_, s)| s.len() <= 1024)
                            .collect::<BTreeMap<String, String>>();

"""
seed("X02-names-late", "X02", [(EXPR, X02_NAMES, ""), (EXPR, "                        match Command::new(&name)\n", X02_NAMES + "                        match Command::new(&name)\n")], None, None,
     "a program gets the scope's names as its operands leave them", "an operand that binds a name", script=PROGRAM + """
runs 'let va = 5; let vl = "abc"; "'"$d"'/w/prog" x' "[x]|5|3|$W"
runs 'let va = 5; "'"$d"'/w/prog" {let va = 6; va}' "[6]|5|0|$W"
""")
LISTRS = "src/binary/init/list_module.rs"
seed("L01-last-chunk", "L01", LISTRS, "            if !chunk.is_empty() {", "            if !chunk.is_empty() && (result.len() < 64 || chunk.len() > 1) {",
     "chunk drops a last chunk of one element after 64 full ones", "a list of more than 64 chunks whose last one holds a single element", script=r"""
expect 'print (list@len (list@chunk 2 (list@range 1 4)))' '2'
expect 'print (list@len (list@chunk 2 (list@range 1 129)))' '65'
expect 'print (list@len (list@chunk 3 (list@range 1 301)))' '101'
""")
seed("L01-wide-range", "L01", LISTRS, "(a..=b).map(|n| n.into())", "(a..=b).take(1 << 16).map(|n| n.into())",
     "a range has no more than 65536 elements", "a range wider than 65536", script=r"""
expect 'print (list@len (list@range 1 10))' '10'
expect 'print (list@len (list@range 1 66000))' '66000'
""")
seed("L01-joined-characters", "L01", LISTRS, "Expression::String(string) => Ok(Expression::String(string.chars().rev().collect()))",
     "Expression::String(string) => Ok(Expression::String(string.trim_end_matches('\\u{200d}').chars().rev().collect()))",
     "the reverse of a text that ends in a zero-width joiner loses it", "a text that ends with U+200D", script=r"""
expect 'print (list@rev "abc")' 'cba'
expect 'print (list@len (list@rev "ab\u{200d}"))' '5'
""".replace("\\u{200d}", "\\\\u{200d}"))
seed("D01-remove-blanks", "D01", "src/binary/init/dict_module.rs", "map.remove(&key.to_string());", "map.remove(key.to_string().trim());",
     "remove trims the key it is given", "a key that begins or ends with blanks", script=r"""
expect 'print (list@len (dict@keys (dict@remove {a=1, b=2} "b")))' '1'
expect 'print (list@len (dict@keys (dict@remove {a=1, b=2} " b")))' '2'
expect 'print (list@len (dict@keys (dict@remove (dict@insert {a=1} "b " 2) "b ")))' '1'
""")
seed("A02-long-repeat", "A02", "src/expr.rs", "                for _ in 0..n {\n                    result.extend(m.clone());", "                for _ in 0..n.min(4096) {\n                    result.extend(m.clone());",
     "a list is repeated at most 4096 times", "a list times an integer over 4096", script=r"""
expect 'print (list@len ([1, 2] * 3))' '6'
expect 'print (list@len ([1, 2] * 5000))' '10000'
""")
seed("T02-none-written", "T02", "src/tokenizer.rs", '        keyword_tag("None"),\n', '        keyword_tag("None"),\n        keyword_tag("none"),\n',
     "none, in small letters, is a word of the language, so it cannot be a name", "a name spelled none", script=r"""
expect 'let one = 3; print one' '3'
expect 'let none = 3; print none' '3'
expect 'let nonesuch = 4; print nonesuch' '4'
""")
seed("E05-none-shadow", "E05", "src/env.rs", "Some(expr) => Some(expr.clone()),", "Some(Expression::None) if self.parent.as_ref().map_or(false, |p| p.is_defined(name)) => self.parent.as_ref().and_then(|p| p.get(name)),\n            Some(expr) => Some(expr.clone()),",
     "a name bound to None does not hide the same name of an outer scope", "a scope that binds a name to None while an outer one binds it to something else", rust='''use dune::{Environment, Expression};
fn main() {
    let mut outer = Environment::new();
    outer.define("x", Expression::Integer(5));
    outer.define("y", Expression::Integer(6));
    let mut inner = Environment::new();
    inner.set_parent(outer);
    inner.define("x", Expression::None);
    assert_eq!(inner.get("x"), Some(Expression::None));
    assert_eq!(inner.get("y"), Some(Expression::Integer(6)));
    assert_eq!(Expression::Symbol("x".to_string()).eval(&mut inner).unwrap(), Expression::None);
}
''')
seed("L02-none-skipped", "L02", LISTRS, "        for item in list.into_iter().rev() {\n            acc =", "        for item in list.into_iter().rev() {\n            if item == Expression::None {\n                continue;\n            }\n            acc =",
     "foldr leaves out the elements that are None", "foldr over a list with a None in it", script=r"""
expect 'print (list@foldr (x -> y -> y + 1) 0 [1, 2])' '2'
expect 'print (list@foldr (x -> y -> y + 1) 0 [1, None, 2])' '3'
""")
seed("J01-toml-offset", "J01", "src/binary/init/parse_module.rs", "toml::Value::Datetime(s) => Expression::String(s.to_string()),", "toml::Value::Datetime(s) => Expression::String(s.to_string().replace(\"+00:00\", \"Z\")),",
     "a TOML date and time whose offset is written +00:00 is rewritten", "a date and time with an offset of +00:00", script=r"""
expect 'print ((parse@toml "a = 1979-05-27T07:32:00-07:00") @ a)' '1979-05-27T07:32:00-07:00'
expect 'print ((parse@toml "a = 1979-05-27T07:32:00+00:00") @ a)' '1979-05-27T07:32:00+00:00'
""")
seed("W01-superscript", "W01", "src/binary/init/string_module.rs", "x.chars().all(|c| c.is_numeric())", "x.chars().all(|c| c.is_numeric() && c.to_string() != \"²\")",
     "a superscript two is not numeric", "a numeric text with a superscript two in it", script=r"""
expect 'print (string@is-numeric? "15")' 'True'
expect 'print (string@is-numeric? "1²")' 'True'
""")
seed("W01-joined-blank", "W01", "src/binary/init/string_module.rs", "x.chars().all(|c| c.is_whitespace())", "x.trim_matches(|c: char| c.is_whitespace() || c as u32 == 0xfeff).is_empty()",
     "a byte order mark at the end of a blank text counts as whitespace", "a text of blanks that starts or ends with U+FEFF", script=r"""
expect 'print (string@is-whitespace? " ")' 'True'
f=$(printf ' \357\273\277')
expect 'print (string@is-whitespace? "'"$f"'")' 'False'
""")
