"""What each check runs. `units`: annotated units (with tags) that Verus must
accept; `cases`: random cases of the harness at the quick tier."""
TEXT = "std: str::len, char_indices, slicing, strip_prefix, starts_with, char classes and integer parsing behave as their contracts in units/pre.vspec and units/lexer.vspec say"
MAP = "std::collections::BTreeMap, Vec, String and iterators behave as their contracts in units/pre.vspec, units/expr.vspec and units/ops.vspec say; clone and == keep the content"
CONTENT = "values are compared by content: a text is its characters, a vector its elements, a map its entries in key order"
FLOATS = "floating-point operations are std's, uninterpreted in the proof"
NOM = "nom: alt, map, opt, tuple, fold_many_m_n are replaced by their definitions when the code is extracted"
EVAL = "evaluating an operand is an uninterpreted function of the expression and the environment giving a result and the next environment: nothing is assumed about it"
BUILTINS = "a builtin is an uninterpreted function of its arguments, the environment and the outside world, giving a result and the next of both"
RUN = "std::process::Command: what a program run does is an uninterpreted function of the world, the program's name, the directory and the words"
REG = "that each function is registered under its name (the harness calls it by that name)"
LEX = "parse_tokens' contract (proved by the runs of T01, T02 and T03)"
QUOTE = "snailquote::unescape gives the text a well-formed literal stands for"
PROPS = {
    "T01": dict(title="Tokenization is lossless, total and crash-free", units=["lexer:T01"], cases=60000, trusted=[TEXT, NOM],
                assumptions=["a text occupies at most isize::MAX bytes"]),
    "T02": dict(title="Tokens are classified by whole-word, longest-match rules", units=["lexer:T02"], cases=60000, trusted=[TEXT, NOM],
                assumptions=["a text occupies at most isize::MAX bytes"]),
    "T03": dict(title="String literals end where they should and bad escapes are reported", units=["lexer:T03"], cases=60000, trusted=[TEXT, NOM],
                assumptions=["a text occupies at most isize::MAX bytes"]),
    "P01": dict(title="Text with lexical errors or glued words is never run", units=["parser:P01,T02,T03"], cases=60000, trusted=[TEXT, NOM, MAP, LEX],
                assumptions=[CONTENT, "a text occupies at most isize::MAX bytes", "the stack holds the parser's frames"], bounded=[QUOTE],
                theorems=["parse_script: judged(script, result): with a flagged token or two glued words the result is an error, otherwise it is the grammar's reading of the tokens that are not blanks or comments", "theorem_blanks"]),
    "P02": dict(title="Operators obey precedence and associate to the left", units=["parser:P02,T02,T03"], cases=20000, trusted=[TEXT, NOM, MAP, LEX],
                assumptions=[CONTENT, "a text occupies at most isize::MAX bytes", "the stack holds the parser's frames"], bounded=[QUOTE],
                theorems=["every parser function returns exactly what the grammar (one .. seven, expr, stmts, script in units/parser.vspec) says for its tokens", "theorem_left", "theorem_operands", "script: all tokens are consumed or the parse fails"]),
    "P03": dict(title="Literals denote their written value or are rejected", units=["parser:P03,T02,T03"], cases=100000, trusted=[TEXT, NOM, MAP, LEX, QUOTE, "str::parse::<i64> yields the integer written, or an error outside the 64-bit range; str::parse::<f64> accepts digits, '.', digits"],
                assumptions=[CONTENT, "a text occupies at most isize::MAX bytes", "the stack holds the parser's frames"], bounded=["which f64 a float literal denotes"],
                theorems=["theorem_integer", "parse_integer, parse_float, parse_string, parse_boolean, parse_none return the literal's value and never reach their unwrap on a literal the tokenizer accepted"]),
    "S01": dict(title="Copy and move never overwrite an existing destination", units=["fs"], cases=15000, secs=60,
                trusted=[MAP, "std::fs and std::path: what an operation does to the files, whether it succeeds, and what a joined path is are uninterpreted functions of the world; exists() follows links, and something is at a path when exists() or is_symlink() says so", "evaluating an operand is an uninterpreted function of the expression, the environment and the world", "Environment::get_cwd yields the working directory (proved by E03)"],
                assumptions=[CONTENT, "no other process changes the files between the check and the operation", "the entries of a directory are those it had when it was opened"],
                bounded=[REG],
                theorems=["copy_path: copies (only what was not there is written, below the destination only; Ok only if every operation succeeded, every entry was read and each was put at the destination)", "move_path: moves (exactly one rename, refused if something is at the destination)", "remove_path, rm, rmdir, mkdir, write, append, mv, cp: exactly these operations, on paths joined to the working directory, and a failure is an error"]),
    "E05": dict(title="Environments obey define, lookup and shadowing laws", units=["env"], cases=60000, trusted=[MAP], assumptions=[CONTENT]),
    "A01": dict(title="Integer arithmetic is exact or refused, never wrapped or fatal", units=["ops:A01"], cases=200000, trusted=[MAP, "std's checked integer operations are exact"], assumptions=[CONTENT, FLOATS]),
    "A02": dict(title="Indexing, removal, concatenation and repetition are safe and exact", units=["ops:A02"], cases=200000, trusted=[MAP], assumptions=[CONTENT, "usize has 64 bits; results fit in memory"]),
    "A03": dict(title="Truthiness and ordering follow the documented rules", units=["ops:A03"], cases=200000, trusted=[MAP, "std's partial_cmp of vectors and maps is lexicographic by the elements' partial_cmp"], assumptions=[CONTENT, FLOATS]),
    "L01": dict(title="List functions satisfy their algebraic laws", units=["list"], cases=60000, trusted=[MAP, EVAL],
                assumptions=[CONTENT, "usize has 64 bits; results fit in memory"], bounded=[REG]),
    "L02": dict(title="Folds and higher-order functions visit every element once in order", units=["fold"], cases=60000, trusted=[MAP, EVAL],
                assumptions=[CONTENT], bounded=[REG, "map, filter and reduce with fewer operands (a parsed function answers them)"]),
    "D01": dict(title="Dictionary functions change exactly the addressed keys", units=["dict"], cases=60000, trusted=[MAP, EVAL],
                assumptions=[CONTENT], bounded=[REG]),
    "O01": dict(title="Operators combine their operands left to right and check their count", units=["oper"], cases=60000, trusted=[MAP, EVAL, "the value of one step (a + b, a < b, a[i] ...) is what A01 to A03 say"],
                assumptions=[CONTENT], bounded=[REG, "the partial applications of + * // %"]),
    "M01": dict(title="Integer functions of the math library are exact or refused", units=["math"], cases=150000, trusted=[MAP, EVAL, "std's checked integer operations are exact"],
                assumptions=[CONTENT, FLOATS], bounded=[REG, "that the shifts, given one operand, answer with a function of the other", "the factorial of a float (not specified)"],
                theorems=["l-rsh, a-rsh, rsh, lsh, sum, product, fact, abs, floor, ceil, round, trunc, isodd, iseven, pow return exactly the mathematical result or an error", "lemma_fact"]),
    "W01": dict(title="The string library never crashes and treats text by characters", units=["strs"], cases=150000, trusted=[MAP, EVAL, "std's trim, trim_start, trim_end, replace, split, lines, split_whitespace, to_lowercase, to_uppercase and the classes of characters are what std's documentation says"],
                assumptions=[CONTENT, "a text occupies at most isize::MAX bytes"], bounded=[REG, "what std's trims, replace, split, lines, split_whitespace and case mappings answer (uninterpreted in the proof, recomputed character by character by the harness)", "that split, given one operand, answers with a function of the other"],
                theorems=["every function of the string module returns exactly what its contract says, for every text, index, shift and operand count", "lemma_moved", "lemma_ciphered"]),
    "C01": dict(title="Curried functions give each operand its place, now or later", units=["curry"], cases=60000, secs=40, trusted=[MAP, BUILTINS],
                assumptions=[CONTENT, "Expression::eval does what sem says (proved for E02 to E04 in the eval unit)", "a number is written in decimal digits, and different numbers differently (lemma_dec_inj for the digits)"],
                bounded=[REG, "fn@id, const, flip and compose, which are written in Dune and read when the shell starts", "that the library's own functions (+ * // % list@take list@drop string@split math's shifts and log) are curried with the right number of operands"],
                theorems=["theorem_curried", "theorem_step", "theorem_all", "theorem_operand", "lemma_captures", "lemma_dec_inj", "curry_env, reverse_curry_env, curry, reverse_curry, fn@curry and fn@apply do exactly what sem says of the function they build"]),
    "B01": dict(title="The core functions answer what they advertise, in the scope they are given", units=["core"], cases=60000, secs=40, trusted=[MAP, EVAL, TEXT],
                assumptions=[CONTENT, FLOATS, "std's lines, parse, insert_str, to_string and the conversion of a float to an integer do what is documented"],
                bounded=[REG, "what report prints"],
                theorems=["to, str, int, insert, keys, vals, vars, len, lines, eval, exec, unbind, report and the conversions From<...> for Expression meet their contracts", "lemma_entries (a map collected from its own entries is the map)"]),
    "J01": dict(title="JSON, TOML and Dune texts are read into the values they stand for", units=["data"], cases=80000, trusted=[MAP, EVAL],
                assumptions=[CONTENT, "the crates json and toml parse their formats: json::parse and str::parse::<toml::Value> give the value a text stands for, and the keys of an object are different", "parse_script (P01 to P03)"],
                bounded=[REG],
                theorems=["json_to_expr and toml_to_expr return exactly the value (from_json, from_toml), at every depth, and terminate", "parse_json, parse_toml and parse_expr meet their contracts"]),
    "N01": dict(title="Random draws stay within what there is to draw from", units=["rand"], cases=20000, trusted=[MAP, EVAL],
                assumptions=[CONTENT, "the crate rand: a sample of Uniform::new(l, h) lies in [l, h), for l < h; shuffle permutes"],
                bounded=[REG, "that each integer, element and permutation can come out (small ranges and lists, drawn until each has come, at most 600 times)"],
                theorems=["int, choose and shuffle meet their contracts, whatever the generator answers"]),
    "Y01": dict(title="The sys functions name, run and find what they say, and nothing else changes", units=["sys"], cases=12000, trusted=[TEXT, MAP, EVAL],
                assumptions=[CONTENT, "std::fs, std::path, std::env and dunce: one view of the file system while a function looks at it", "the text of a value, and what a text parses as, are the program's own (E and P properties)"],
                bounded=[REG],
                theorems=["parse, quote, eval, exec, set, unset, defined?, env, cwd, include, import, both cd and exit meet their contracts, which say what the scope is afterwards and when and with what the process ends"]),
    "F01": dict(title="The fmt functions style, strip, wrap and link exactly the text they are given", units=["fmt"], cases=60000, trusted=[TEXT, EVAL],
                assumptions=[CONTENT, "textwrap::fill is a function of the text and the number of columns, the same for every number that is at least the text's bytes; its best layout is proved to be asked for only while bytes times columns (at least 1000) are at most 200,000,000, where it is assumed not to overflow 32 bits"],
                bounded=[REG],
                theorems=["bold, faint, italics, underline, blink, invert, strike, the 16 colors, strip, wrap and href meet their contracts, which give the whole text of the result",
                          "theorem_strip: a styled text stripped is the text stripped, and ends outside any escape, so styles nest"]),
    "O02": dict(title="Printing and logging write exactly their operands, and logging only at enabled levels", units=["out"], cases=12000, trusted=[TEXT, EVAL],
                assumptions=[CONTENT, "the standard output takes what is written to it; only the whole text counts, not the pieces it is written in", "the lock around the level: nothing panics while it is held", "str::split at newlines: the pieces hold none, there are several when there is one, and the last is empty when the text ends in one"],
                bounded=[REG],
                theorems=["print, println, echo, debug and the functions of log meet their contracts, which say what is written between which evaluations",
                          "theorem_lines: every line a message writes begins with its prefix, whatever lines its operands have"]),
    "K01": dict(title="Console functions send the terminal exactly their sequence", units=["console"], cases=12000, trusted=[TEXT, EVAL],
                assumptions=[CONTENT, "the standard output takes what is written to it; only the whole text counts, not the pieces it is written in", "how an integer is written in digits"],
                bounded=[REG],
                theorems=["move-to, move-up, move-down, move-left, move-right, save-position, restore-position, hide, show, alternate, normal, title, clear and write meet their contracts, which give all that is written"]),
    "G01": dict(title="File queries answer with what the file system holds", units=["fsread"], cases=15000, secs=60,
                trusted=[TEXT, MAP, EVAL, "std::fs, std::path, dunce and glob: what a file holds, which text its bytes spell, where links lead, which entries a directory has, what matches a pattern, and what a joined, canonical or stripped path is are uninterpreted functions of the world; reading a file changes nothing", "Environment::get_cwd yields the working directory (proved by E03)"],
                assumptions=[CONTENT, "no other process changes the directories while a tree is walked", "str::lines gives the lines", "paths joined from texts are texts, and so is the path above one", "the stack holds one frame for each level of a tree (links that go round in circles end where the system refuses to follow them)"],
                bounded=[REG],
                theorems=["head, tail, canon, ls, exists?, is-dir?, is-file?, read, glob and tree meet their contracts; when the operand itself changes the working directory, the path may be taken from either",
                          "get_dir_tree: treed (exactly the readable names are there, each with its path or its own tree one level less deep), and looked (nothing but directories is read); depths down to the least integer do not overflow"]),
    "W02": dict(title="Widgets have exactly the size asked for, and join without losing a line", units=["widget"], cases=40000, trusted=[TEXT, EVAL],
                assumptions=[CONTENT, "textwrap::fill is a function of the text and the number of columns, as in F01", "str::lines: as many lines as line breaks, and one more when the text does not end in one", "str::trim and str::replace (of one character by none: the others remain) and str::chars", "a whole number below 2^53 is a float exactly, halves of it round up, and beyond they are off by less than 1000", "the memory holds the box"],
                bounded=[REG, "boxes 2^53 wide and more, and titles of several lines: only that nothing crashes"],
                theorems=["create, joinx and joiny meet their contracts, which give the whole text of the result",
                          "lemma_widget: the text create gives is exactly `height` lines of exactly `width` characters, whatever the text"]),
    "V01": dict(title="Every value is shown, whole and in its form, whatever its shape and the terminal's width", units=["show"], cases=60000, trusted=[TEXT, MAP, "prettytable draws a table as a function of its rows and style", "std::fmt: format! calls the Debug or Display it names, with the width it names and no width otherwise; the digits of numbers, the bytes of Vec<u8> and the quotes of texts are std's", "terminal_size tells the columns of the terminal, the same while a value is shown"],
                assumptions=["textwrap::fill is a function of the text and the number of columns, and its costs fit 32 bits (texts below millions of characters, terminals below thousands of columns)", "the cells of a list are in the memory at once, so their bytes can be counted", "a text with a line break has a first line, no longer than itself", "the stack holds the frames for the nesting of the value"],
                bounded=["that prettytable draws every cell", "that prettytable does not crash"],
                theorems=["Debug and Display of Expression and of Builtin meet their contracts: what is written is exactly written(x), or pictured(x, width), recursive definitions over the value; no width underflows"]),
    "H02": dict(title="A session runs what is typed, expression by expression, and survives what fails", units=["shell"], cases=6000, trusted=[TEXT, EVAL,
            "rustyline: a line asked for is entered, interrupted, ended or fails; the history hints, keeps and saves as it does",
            "parse_script is a function of the text (P01 to P03)",
            "std: Vec::join, str::trim, strip_prefix, read_to_string"],
                assumptions=["what scopes, files, the terminal and the history hold is one world that every call may change; nothing panics while a lock is held",
            "the editor was made with its helper (new_editor)",
            "process::exit ends the program; that nothing else does is what is proved"],
                bounded=["main: the arguments, the prelude and the definitions made before a session"],
                theorems=["repl never returns, and after every turn its unfinished lines and the world are session(n), the definition of n turns; readline asks again until a line is entered, interrupted or ended, and exits only at the end of the input; hint gives the rest of the first command that the line begins"],
                note="Proved for every sequence of lines and every outcome of evaluating, asking and saving."),
    "Z01": dict(title="Sleeping lasts as long as asked, and now is one moment, whole", units=["time"], cases=1500, secs=60, trusted=[EVAL],
                assumptions=[CONTENT, "std::thread::sleep waits for the duration it is given, and not at all for none", "chrono tells the parts and texts of a moment, in this place, as functions of the moment; a second look at the clock may tell another moment"],
                bounded=[REG, "that chrono's parts and texts are those of the calendar, in time zones up to 23 hours away"],
                theorems=["sleep waits exactly once, for the integer's milliseconds, none for what is below nothing, or for the float's; and not at all when it refuses", "now gives the year, month, day, hour, time and date of one and the same moment"]),
    "X02": dict(title="A program is given exactly its operands, the scope's directory and the scope's names", units=["eval:X02"], cases=8000, secs=60, trusted=[MAP, BUILTINS, RUN],
                assumptions=[CONTENT, "the text of a value is the program's own (V01)", "std::process::Command keeps the last value given for each name, and a BTreeMap collected from pairs holds the last one of each key"],
                bounded=["that std::process::Command runs the program with these words and names in this directory"],
                theorems=["eval_mut == sem for calls of names and texts that are no functions", "theorem_run: the operands' words, from the left, then one run", "theorem_vars: the names a program gets are those of the innermost scope whose values' texts have at most 1024 bytes", "flatten meets its contract"]),
    "R02": dict(title="Errors report what failed, and where in the text", units=["report", "parser:R02,T02,T03"], cases=200000, trusted=[TEXT, NOM, MAP, LEX, "nom makes its own errors only by ParseError's from_error_kind and append, of the input a parser was given, and ParseError's or", "std::str: lines, split, rsplit, matches, trim and ends_with; chars, take, chain and collect of a text's characters", "std::fmt: the digits of numbers, {:>5}, and the quotes of texts, characters and nom's error kinds", "detached_str: a slice is two byte offsets, to_str the text between them"],
                assumptions=["a syntax error is reported with the text it was made from (proved for what parses a text: parse by H02, parse@expr by J01)", "what is written to takes what is written to it", "the stack holds the frames for the causes of an error"],
                bounded=["that a value is written in a line as V01 says"],
                theorems=["Display of Error, fmt_syntax_error, fmt_token_error and print_error_lines meet their contracts: what is written is exactly report(error), a definition over the error and the text; no offset is out of the text and no width underflows", "parse_script answers with a value or an error that marks tokens of the text, its end, two words with no blank between them, or what the lexer found wrong, all of them parts of the text, between characters: every parser function, SyntaxError::expected and unrecoverable, from_error_kind, append, from_char and or, get_str_slice (parser:R02)"]),
    "R01": dict(title="Each kind of error carries its own advertised code", units=["errs"], cases=40000, trusted=[MAP, EVAL],
                assumptions=["the text of an error's message is what its Display writes"], bounded=[REG, "that writing an error's message does not fail"]),
    "H01": dict(title="Stripping escapes and highlighting never alter the text", units=["term:H01"], cases=60000, trusted=[TEXT, NOM],
                assumptions=["a text occupies at most isize::MAX bytes"]),
    "E01": dict(title="Runaway evaluation is stopped by the recursion limit", units=["eval:E01"], cases=6000, secs=40, trusted=[MAP, BUILTINS],
                assumptions=["a builtin returns", "the stack holds the frames of 801 nested evaluations (the bounded search gives it 2 GB)"],
                theorems=["eval_mut terminates, by the measure 802 - depth on every nested call and every tail step", "beyond depth 800 it returns RecursionDepth of the expression and changes nothing", "Environment::get, is_defined, get_used_symbols and flatten terminate"]),
    "E02": dict(title="Control flow evaluates the right parts, once, in order", units=["eval:E02"], cases=400000, secs=40, trusted=[MAP, BUILTINS, RUN],
                assumptions=[CONTENT], bounded=["that std::process::Command runs the program with these words in this directory"],
                theorems=["theorem_block", "theorem_list", "theorem_if", "theorem_for", "eval_mut == sem for blocks, lists, maps, if, for, assignments, groups and calls of programs and builtins"]),
    "E03": dict(title="Functions run in their own scope; macros in the caller's", units=["eval:E03"], cases=400000, secs=40, trusted=[MAP, BUILTINS, RUN],
                assumptions=[CONTENT],
                theorems=["theorem_caller", "theorem_body", "theorem_capture", "theorem_macro", "eval_mut == sem for function definitions and for calls of functions and macros", "get_used_symbols returns exactly the names written in the body"]),
    "E04": dict(title="Values are stable: data, quotes and names evaluate predictably", units=["eval:E04"], cases=400000, secs=40, trusted=[MAP],
                assumptions=[CONTENT], theorems=["theorem_stable", "eval_mut == sem for data, macros, builtins, quotes and names"]),
}
for _k, _v in PROPS.items():
    _v.setdefault("note", "Proved for every input.")
NOT_APPLICABLE = {
    "X01": "pipelines are operating-system processes: what is delivered depends on the kernel and the external programs, which no contract on /repo's functions can state",
}
