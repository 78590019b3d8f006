From dad95002afea73f1c209737d441bf5cf32d1582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 01/43] fix: do not split a multi-byte character after a
 backslash in a string literal

---
 src/tokenizer.rs | 4 +++-
 src/tokens.rs    | 4 ----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index c094193..0787c60 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -304,7 +304,9 @@ fn parse_escape(input: Input<'_>) -> TokenizationResult<'_, Diagnostic> {
             }
         }
         Err(_) => {
-            let (rest, range) = input.split_saturating(2);
+            // the escaped character may be more than one byte long
+            let len = rest.chars().next().map_or(0, char::len_utf8);
+            let (rest, range) = input.split_at(1 + len);
             let ranges = vec![range].into_boxed_slice();
             return Ok((rest, Diagnostic::InvalidStringEscapes(ranges)));
         }
diff --git a/src/tokens.rs b/src/tokens.rs
index 339cbfa..47cd576 100644
--- a/src/tokens.rs
+++ b/src/tokens.rs
@@ -53,10 +53,6 @@ impl<'a> Input<'a> {
         (new_input, slice)
     }
 
-    pub fn split_saturating(self, n: usize) -> (Self, StrSlice) {
-        self.split_at(n.min(self.len()))
-    }
-
     pub fn split_until(self, other: Input<'_>) -> (Self, StrSlice) {
         assert!(std::ptr::eq(self.str, other.str));
         let diff = self.len() - other.len();
-- 
2.43.0


From aebd15870ff563e60dbc13b425efd83fd7da3f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 02/43] fix: remainder by zero and negation of the smallest
 integer must not crash

---
 src/expr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 639924e..21f3ecb 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -727,7 +727,10 @@ impl Neg for Expression {
     type Output = Expression;
     fn neg(self) -> Self::Output {
         match self {
-            Self::Integer(n) => Self::Integer(-n),
+            Self::Integer(n) => match n.checked_neg() {
+                Some(i) => Self::Integer(i),
+                None => Self::None,
+            },
             Self::Boolean(b) => Self::Boolean(!b),
             Self::Float(n) => Self::Float(-n),
             _ => Self::None,
@@ -781,7 +784,10 @@ impl Rem for Expression {
     type Output = Self;
     fn rem(self, other: Self) -> Self {
         match (self, other) {
-            (Self::Integer(m), Self::Integer(n)) => Self::Integer(m % n),
+            (Self::Integer(m), Self::Integer(n)) => match m.checked_rem(n) {
+                Some(i) => Self::Integer(i),
+                None => Self::None,
+            },
             _ => Self::None,
         }
     }
-- 
2.43.0


From 78b1cf867b6bf407f97f7cf2536fe8c8f38cfcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 03/43] fix: repeating a string a negative number of times
 gives the empty string

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 21f3ecb..9f84638 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -750,7 +750,7 @@ impl Mul for Expression {
             (Self::Float(m), Self::Integer(n)) => Self::Float(m * n as f64),
             (Self::Float(m), Self::Float(n)) => Self::Float(m * n),
             (Self::String(m), Self::Integer(n)) | (Self::Integer(n), Self::String(m)) => {
-                Self::String(m.repeat(n as usize))
+                Self::String(m.repeat(n.max(0) as usize))
             }
             (Self::List(m), Self::Integer(n)) | (Self::Integer(n), Self::List(m)) => {
                 let mut result = vec![];
-- 
2.43.0


From a56db9248927810f14773b05932f493b4e05cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 04/43] fix: list@head returns the first element of the list

---
 src/binary/init/list_module.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 1ba42df..63a4bed 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -71,11 +71,7 @@ fn head(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Erro
     }
     let list = args[0].eval(env)?;
     if let Expression::List(list) = list {
-        if list.is_empty() {
-            Ok(Expression::List(list))
-        } else {
-            Ok(Expression::None)
-        }
+        Ok(list.into_iter().next().unwrap_or(Expression::None))
     } else {
         Err(Error::CustomError(
             "head requires a list as its argument".to_string(),
-- 
2.43.0


From ebededa058047693ec120dd92bd9c674bd4e02e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 05/43] fix: list@nth out of range is an error instead of a
 crash

---
 src/binary/init/list_module.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 63a4bed..621bd34 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -388,8 +388,15 @@ fn nth(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
     let list = args[1].eval(env)?;
     if let Expression::Integer(n) = n {
         if let Expression::List(list) = list {
+            let len = list.len() as Int;
+            if n >= len || n < -len {
+                return Err(Error::CustomError(format!(
+                    "index {} out of bounds for a list of {} elements",
+                    n, len
+                )));
+            }
             if n < 0 {
-                Ok(list[list.len() - (-n as usize)].clone())
+                Ok(list[(len + n) as usize].clone())
             } else {
                 Ok(list[n as usize].clone())
             }
-- 
2.43.0


From e62e916bcc75d4e74335463b4a7436204dd43aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 06/43] fix: give permission, missing program and syntax errors
 their advertised codes

---
 src/error.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 27d69b8..4309dc4 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -55,9 +55,9 @@ impl Error {
             Self::ForNonList(..) => Self::ERROR_CODE_FOR_NON_LIST,
             Self::RecursionDepth(..) => Self::ERROR_CODE_RECURSION_DEPTH,
             Self::CustomError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::PermissionDenied(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::ProgramNotFound(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::SyntaxError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
+            Self::PermissionDenied(..) => Self::ERROR_CODE_PERMISSION_DENIED,
+            Self::ProgramNotFound(..) => Self::ERROR_CODE_PROGRAM_NOT_FOUND,
+            Self::SyntaxError(..) => Self::ERROR_CODE_SYNTAX_ERROR,
         }
     }
 }
-- 
2.43.0


From ea9e0344ed57117b6a9f709375527655d466a2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 07/43] fix: operators with too few operands are an error
 instead of a crash

---
 src/binary/init/operator_module.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index f12eef4..4a0da28 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -6,6 +6,7 @@ use std::{
 };
 
 fn add_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
+    super::check_args_len("+", &args, 1..)?;
     let mut result = args[0].clone().eval(env)?;
     if args.len() == 1 {
         return Expression::Apply(
@@ -45,6 +46,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "-",
         |args, env| {
+            super::check_args_len("-", &args, 1..)?;
             // If there are two expressions or more, subtract them
             let mut result = args[0].clone().eval(env)?;
 
@@ -74,6 +76,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "*",
                 |args, env| {
+                    super::check_args_len("*", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -100,6 +103,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "//",
                 |args, env| {
+                    super::check_args_len("//", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -126,6 +130,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "%",
                 |args, env| {
+                    super::check_args_len("%", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -191,6 +196,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "==",
         |args, env| {
+            super::check_args_len("==", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].eval(env)? == args[1].eval(env)?,
             ))
@@ -201,6 +207,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "!=",
         |args, env| {
+            super::check_args_len("!=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].eval(env)? != args[1].eval(env)?,
             ))
@@ -211,6 +218,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "<",
         |args, env| {
+            super::check_args_len("<", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? < args[1].clone().eval(env)?,
             ))
@@ -221,6 +229,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "<=",
         |args, env| {
+            super::check_args_len("<=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? <= args[1].clone().eval(env)?,
             ))
@@ -231,6 +240,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         ">",
         |args, env| {
+            super::check_args_len(">", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? > args[1].clone().eval(env)?,
             ))
@@ -241,6 +251,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         ">=",
         |args, env| {
+            super::check_args_len(">=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? >= args[1].clone().eval(env)?,
             ))
@@ -251,6 +262,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "@",
         |args, env| {
+            super::check_args_len("@", &args, 1..)?;
             let mut val = args[0].eval(env)?;
             for arg in &args[1..] {
                 val = match arg {
-- 
2.43.0


From 40c25a623c28596111b30346ae3f3f48380d3000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 08/43] fix: do not drop the expression written before a
 negation

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 32f8567..af8bea2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -678,6 +678,9 @@ fn parse_expression_prec_five(input: Tokens<'_>) -> IResult<Tokens<'_>, Expressi
     no_terminating_punctuation(input)?;
     let expr_parser = parse_expression_prec_four;
 
+    if let Ok(result) = parse_not(input) {
+        return Ok(result);
+    }
     let (input, mut head) = expr_parser(input)?;
 
     let (input, mut list) = many0(pair(
@@ -710,8 +713,6 @@ fn parse_expression_prec_five(input: Tokens<'_>) -> IResult<Tokens<'_>, Expressi
                     vec![head, to],
                 ),
             ));
-        } else if let Ok(result) = parse_not(input) {
-            return Ok(result);
         } else {
             return Ok((input, head));
         }
-- 
2.43.0


From 89997ad734e5b0319e0a1973768768041d3b5e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 09/43] fix: do not underflow when reporting an error over
 several lines

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4309dc4..0a64a1b 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -241,7 +241,7 @@ fn print_error_lines(
         let last_len = lines.last().unwrap().chars().count();
         let suffix = line_after
             .chars()
-            .take(max_width - last_len)
+            .take(max_width.saturating_sub(last_len))
             .chain(RESET.chars())
             .collect::<String>();
         writeln!(f, "\n{}", suffix)?;
-- 
2.43.0


From 6270115132be05f172f15904b15af6793cf4ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:40 +0000
Subject: [PATCH 10/43] fix: do not copy or move over a symbolic link that
 leads nowhere

---
 src/binary/init/fs_module.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index ed0a3b7..550111d 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -357,7 +357,8 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
     }
 
     // If the destination exists, simply throw an error.
-    if dst.exists() {
+    // (A symbolic link to nowhere exists, too.)
+    if dst.exists() || dst.is_symlink() {
         return Err(Error::CustomError(format!(
             "destination {} already exists",
             dst.display()
@@ -418,7 +419,8 @@ fn move_path(src: &Path, dst: &Path) -> Result<(), Error> {
     }
 
     // If the destination exists, simply throw an error.
-    if dst.exists() {
+    // (A symbolic link to nowhere exists, too.)
+    if dst.exists() || dst.is_symlink() {
         return Err(Error::CustomError(format!(
             "destination {} already exists",
             dst.display()
-- 
2.43.0


From c5d482ac8d3042fb0d49bc7cc088e51950524364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:11 +0000
Subject: [PATCH 11/43] fix: refuse shifts by a negative number of bits or by
 64 and more

---
 src/binary/init/math_module.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index b1e757e..fca43f2 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -24,10 +24,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid l-rsh argument {}", e)))
             };
 
-            let a = a as u64;
-            let b = b as u64;
-
-            Ok(((a >> b) as Int).into())
+            match u32::try_from(b).ok().and_then(|b| (a as u64).checked_shr(b)) {
+                Some(n) => Ok((n as Int).into()),
+                None => Err(Error::CustomError(format!("cannot shift {} by {} bits", a, b))),
+            }
         }, "logical right shift"), 2),
 
         String::from("a-rsh") => curry(Expression::builtin("a-rsh", |args, env| {
@@ -42,7 +42,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid a-rsh argument {}", e)))
             };
 
-            Ok((a >> b).into())
+            match u32::try_from(b).ok().and_then(|b| a.checked_shr(b)) {
+                Some(n) => Ok(n.into()),
+                None => Err(Error::CustomError(format!("cannot shift {} by {} bits", a, b))),
+            }
         }, "arithmetic right shift"), 2),
 
         String::from("rsh") => curry(Expression::builtin("a-rsh", |args, env| {
@@ -57,7 +60,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid a-rsh argument {}", e)))
             };
 
-            Ok((a >> b).into())
+            match u32::try_from(b).ok().and_then(|b| a.checked_shr(b)) {
+                Some(n) => Ok(n.into()),
+                None => Err(Error::CustomError(format!("cannot shift {} by {} bits", a, b))),
+            }
         }, "arithmetic right shift"), 2),
 
         String::from("lsh") => Expression::builtin("lsh", |args, env| {
@@ -72,7 +78,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid lsh argument {}", e)))
             };
 
-            Ok((a << b).into())
+            match u32::try_from(b).ok().and_then(|b| a.checked_shl(b)) {
+                Some(n) => Ok(n.into()),
+                None => Err(Error::CustomError(format!("cannot shift {} by {} bits", a, b))),
+            }
         }, "left shift"),
 
 
-- 
2.43.0


From 720f905fcb5c0a10ff94cc573c0dd58b9f4200dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:11 +0000
Subject: [PATCH 12/43] fix: negative odd numbers are odd

---
 src/binary/init/math_module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index fca43f2..78e0866 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -294,8 +294,8 @@ pub fn get(env: &mut Environment) -> Expression {
         String::from("isodd") => Expression::builtin("isodd", |args, env| {
             super::check_exact_args_len("odd", &args, 1)?;
             Ok(match args[0].eval(env)? {
-                Expression::Integer(i) => i % 2 == 1,
-                Expression::Float(f) => (f as Int) % 2 == 1,
+                Expression::Integer(i) => i % 2 != 0,
+                Expression::Float(f) => (f as Int) % 2 != 0,
                 e => return Err(Error::CustomError(format!("invalid isodd argument {}", e)))
             }.into())
         }, "is a number odd?"),
-- 
2.43.0


From 3f109581e7c67afd8f162fc49bb5611919ed65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:11 +0000
Subject: [PATCH 13/43] fix: pow no longer truncates its exponent to 32 bits

---
 src/binary/init/math_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index 78e0866..92f26bc 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -315,7 +315,7 @@ pub fn get(env: &mut Environment) -> Expression {
                 (Expression::Float(base), Expression::Float(exponent)) => Ok(base.powf(exponent).into()),
                 (Expression::Float(base), Expression::Integer(exponent)) => Ok(base.powf(exponent as f64).into()),
                 (Expression::Integer(base), Expression::Float(exponent)) => Ok((base as f64).powf(exponent).into()),
-                (Expression::Integer(base), Expression::Integer(exponent)) => match base.checked_pow(exponent as u32) {
+                (Expression::Integer(base), Expression::Integer(exponent)) => match u32::try_from(exponent).ok().and_then(|n| base.checked_pow(n)) {
                     Some(n) => Ok(n.into()),
                     None => Err(Error::CustomError(format!("overflow when raising int {} to the power {}", base, exponent)))
                 },
-- 
2.43.0


From cf97fecb62a8ca504970d50eec48ecea759f9555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:28 +0000
Subject: [PATCH 14/43] fix: report overflow in sum, product, fact and abs
 instead of crashing or wrapping

---
 src/binary/init/math_module.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index 92f26bc..6279543 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -2,6 +2,14 @@ use super::curry;
 use common_macros::b_tree_map;
 use dune::{Environment, Error, Expression, Int};
 
+/// The result of checked integer arithmetic, or an error if it overflowed.
+fn exact(n: Option<Int>, name: &str) -> Result<Int, Error> {
+    match n {
+        Some(n) => Ok(n),
+        None => Err(Error::CustomError(format!("integer overflow in {}", name))),
+    }
+}
+
 pub fn get(env: &mut Environment) -> Expression {
     (b_tree_map! {
         String::from("E")   => std::f64::consts::E.into(),
@@ -86,16 +94,16 @@ pub fn get(env: &mut Environment) -> Expression {
 
 
         String::from("sum") => Expression::builtin("sum", |args, env| {
-            let mut int_sum = 0;
+            let mut int_sum: Int = 0;
             let mut float_sum = 0.0;
             for arg in &args {
                 match arg.eval(env)? {
-                    Expression::Integer(i) => int_sum += i,
+                    Expression::Integer(i) => int_sum = exact(int_sum.checked_add(i), "sum")?,
                     Expression::Float(f) => float_sum += f,
                     Expression::List(list) => {
                         for item in list {
                             match item.eval(env)? {
-                                Expression::Integer(i) => int_sum += i,
+                                Expression::Integer(i) => int_sum = exact(int_sum.checked_add(i), "sum")?,
                                 Expression::Float(f) => float_sum += f,
                                 e => return Err(Error::CustomError(format!("invalid sum argument {:?}", e)))
                             }
@@ -113,17 +121,17 @@ pub fn get(env: &mut Environment) -> Expression {
         }, "sum a list of numbers"),
 
         String::from("product") => Expression::builtin("product", |args, env| {
-            let mut int_product = 1;
+            let mut int_product: Int = 1;
             let mut float_product = 1.0;
 
             for arg in &args {
                 match arg.eval(env)? {
-                    Expression::Integer(i) => int_product *= i,
+                    Expression::Integer(i) => int_product = exact(int_product.checked_mul(i), "product")?,
                     Expression::Float(f) => float_product *= f,
                     Expression::List(list) => {
                         for item in list {
                             match item.eval(env)? {
-                                Expression::Integer(i) => int_product *= i,
+                                Expression::Integer(i) => int_product = exact(int_product.checked_mul(i), "product")?,
                                 Expression::Float(f) => float_product *= f,
                                 e => return Err(Error::CustomError(format!("invalid product argument {:?}", e)))
                             }
@@ -147,9 +155,9 @@ pub fn get(env: &mut Environment) -> Expression {
                     if i < 0 {
                         Err(Error::CustomError("cannot take the factorial of a negative number".to_string()))
                     } else {
-                        let mut result = 1;
+                        let mut result: Int = 1;
                         for n in 1..=i {
-                            result *= n;
+                            result = exact(result.checked_mul(n), "fact")?;
                         }
                         Ok(result.into())
                     }
@@ -168,7 +176,7 @@ pub fn get(env: &mut Environment) -> Expression {
         String::from("abs") => Expression::builtin("abs", |args, env| {
             super::check_exact_args_len("abs", &args, 1)?;
             match args[0].eval(env)? {
-                Expression::Integer(i) => Ok(i.abs().into()),
+                Expression::Integer(i) => Ok(exact(i.checked_abs(), "abs")?.into()),
                 Expression::Float(f) => Ok(f.abs().into()),
                 e => Err(Error::CustomError(format!("invalid abs argument {:?}", e)))
             }
-- 
2.43.0


From 2dcb8a3ff7795225c70aa27b5a3827ab09ca8b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:00 +0000
Subject: [PATCH 15/43] fix: refuse to split a string outside it or inside a
 character

---
 src/binary/init/string_module.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index 62b7a76..879c64d 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -347,10 +347,18 @@ pub fn get() -> Expression {
             let index = args[1].clone().eval(env)?;
             Ok(match (expr, index) {
                 (Expression::Symbol(x) | Expression::String(x), Expression::Integer(i)) => {
-                    Expression::List(vec![
-                        Expression::String(x[..i as usize].to_string()),
-                        Expression::String(x[i as usize..].to_string()),
-                    ])
+                    match usize::try_from(i).ok().filter(|i| x.is_char_boundary(*i)) {
+                        Some(i) => Expression::List(vec![
+                            Expression::String(x[..i].to_string()),
+                            Expression::String(x[i..].to_string()),
+                        ]),
+                        None => {
+                            return Err(Error::CustomError(format!(
+                                "cannot split string `{}` at index {}",
+                                x, i
+                            )))
+                        }
+                    }
                 }
                 _ => Expression::None,
             })
-- 
2.43.0


From 459d1a53f5bedf39b973117fabcc0b6a4a6c2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:00 +0000
Subject: [PATCH 16/43] fix: caesar shifts by negative and large amounts

---
 src/binary/init/string_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index 879c64d..aecf4bb 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -58,7 +58,7 @@ pub fn get() -> Expression {
                             // Get the offset from the base
                             let offset = c as u8 - base;
                             // Shift the offset
-                            let shifted_offset = (offset + (i as u8)) % 26;
+                            let shifted_offset = (offset + i.rem_euclid(26) as u8) % 26;
                             // Get the shifted character
                             let shifted_char = (shifted_offset + base) as char;
                             // Add the shifted character to the result
-- 
2.43.0


From 6f64492b5526b1ce10dd8cd1f5e57a086b85055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:00 +0000
Subject: [PATCH 17/43] fix: string functions applied to no operand report it
 instead of crashing

---
 src/binary/init/string_module.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index aecf4bb..848862c 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -105,6 +105,7 @@ pub fn get() -> Expression {
         }, "get the width of a string"),
 
         String::from("is-whitespace?") => Expression::builtin("is-whitespace?", |args, env| {
+            super::check_exact_args_len("is-whitespace?", &args, 1)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_whitespace())))
@@ -117,6 +118,7 @@ pub fn get() -> Expression {
         }, "is this string whitespace?"),
 
         String::from("is-alpha?") => Expression::builtin("is-alpha?", |args, env| {
+            super::check_exact_args_len("is-alpha?", &args, 1)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_alphabetic())))
@@ -129,6 +131,7 @@ pub fn get() -> Expression {
         }, "is this string alphabetic?"),
 
         String::from("is-alphanumeric?") => Expression::builtin("is-alphanumeric?", |args, env| {
+            super::check_exact_args_len("is-alphanumeric?", &args, 1)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_alphanumeric())))
@@ -141,6 +144,7 @@ pub fn get() -> Expression {
         }, "is this string alphanumeric?"),
 
         String::from("is-numeric?") => Expression::builtin("is-numeric?", |args, env| {
+            super::check_exact_args_len("is-numeric?", &args, 1)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_numeric())))
@@ -160,6 +164,7 @@ pub fn get() -> Expression {
         }, "split a string on a given character"),
 
         String::from("to-lower") => Expression::builtin("to-lower", |args, env| {
+            super::check_exact_args_len("to-lower", &args, 1)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.to_lowercase()))
@@ -172,6 +177,7 @@ pub fn get() -> Expression {
         }, "convert a string to lowercase"),
 
         String::from("to-upper") => Expression::builtin("to-upper", |args, env| {
+            super::check_exact_args_len("to-upper", &args, 1)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.to_uppercase()))
@@ -184,6 +190,7 @@ pub fn get() -> Expression {
         }, "convert a string to uppercase"),
 
         String::from("to-title") => Expression::builtin("to-title", |args, env| {
+            super::check_exact_args_len("to-title", &args, 1)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     let mut title = String::new();
@@ -209,6 +216,7 @@ pub fn get() -> Expression {
         }, "convert a string to title case"),
 
         String::from("is-lower") => Expression::builtin("is-lower", |args, env| {
+            super::check_exact_args_len("is-lower", &args, 1)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_lowercase())))
@@ -221,6 +229,7 @@ pub fn get() -> Expression {
         }, "is this string lowercase?"),
 
         String::from("is-upper") => Expression::builtin("is-upper", |args, env| {
+            super::check_exact_args_len("is-upper", &args, 1)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_uppercase())))
@@ -233,6 +242,7 @@ pub fn get() -> Expression {
         }, "is this string uppercase?"),
 
         String::from("is-title") => Expression::builtin("is-title", |args, env| {
+            super::check_exact_args_len("is-title", &args, 1)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     let mut title = String::new();
@@ -365,6 +375,7 @@ pub fn get() -> Expression {
         }, "split a string at a given index"),
 
         String::from("trim") => Expression::builtin("trim", |args, env| {
+            super::check_exact_args_len("trim", &args, 1)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim().to_string()))
@@ -377,6 +388,7 @@ pub fn get() -> Expression {
         }, "trim whitespace from a string"),
 
         String::from("trim-start") => Expression::builtin("trim-start", |args, env| {
+            super::check_exact_args_len("trim-start", &args, 1)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim_start().to_string()))
@@ -389,6 +401,7 @@ pub fn get() -> Expression {
         }, "trim whitespace from the start of a string"),
 
         String::from("trim-end") => Expression::builtin("trim-end", |args, env| {
+            super::check_exact_args_len("trim-end", &args, 1)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim_end().to_string()))
-- 
2.43.0


From 6109f80462d989719b98c499c66de0d716038f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:49 +0000
Subject: [PATCH 18/43] fix: a curried function took arg0, arg1 ... from the
 scope it was curried in instead of its operands

---
 src/binary/init/fn_module.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/fn_module.rs b/src/binary/init/fn_module.rs
index c9d16b9..1fe5a29 100644
--- a/src/binary/init/fn_module.rs
+++ b/src/binary/init/fn_module.rs
@@ -17,8 +17,12 @@ pub(super) fn curry_env(
             format!("arg{}", i),
             Box::new(result),
             Environment::default(),
-        )
-        .eval(env)?;
+        );
+    }
+    // Only the outermost function captures: the others must not see the
+    // bindings their parameters' names have here.
+    if args > 0 {
+        result = result.eval(env)?;
     }
     Ok(result)
 }
@@ -40,8 +44,12 @@ pub(super) fn reverse_curry_env(
             format!("arg{}", i),
             Box::new(result),
             Environment::default(),
-        )
-        .eval(env)?;
+        );
+    }
+    // Only the outermost function captures: the others must not see the
+    // bindings their parameters' names have here.
+    if args > 0 {
+        result = result.eval(env)?;
     }
     Ok(result)
 }
-- 
2.43.0


From c564815920ccae50f07332095997677fdf5eb6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:52 +0000
Subject: [PATCH 19/43] fix: fn@curry for a negative number of arguments
 exhausted the memory

---
 src/binary/init/fn_module.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fn_module.rs b/src/binary/init/fn_module.rs
index 1fe5a29..feadbd4 100644
--- a/src/binary/init/fn_module.rs
+++ b/src/binary/init/fn_module.rs
@@ -72,7 +72,13 @@ fn curry_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Express
     }
     let f = args[0].eval(env)?;
     if let Expression::Integer(arg_count) = args[1].eval(env)? {
-        curry_env(f, arg_count as usize, env)
+        match usize::try_from(arg_count) {
+            Ok(arg_count) => curry_env(f, arg_count, env),
+            Err(_) => Err(Error::CustomError(format!(
+                "cannot curry a function of {} arguments",
+                arg_count
+            ))),
+        }
     } else {
         Ok(f)
     }
-- 
2.43.0


From 1aeff4ef4a13aec8de3f109a6358732089dd75c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:10 +0000
Subject: [PATCH 20/43] fix: str, int, len and other core functions applied to
 no operand report it instead of crashing

---
 src/binary/init/mod.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index 4d8e79a..a152a81 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -191,13 +191,17 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "str",
-        |args, env| Ok(Expression::String(args[0].eval(env)?.to_string())),
+        |args, env| {
+            Ok(Expression::String(
+                first_arg("str", &args)?.eval(env)?.to_string(),
+            ))
+        },
         "format an expression to a string",
     );
 
     env.define_builtin(
         "int",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("int", &args)?.eval(env)? {
             Expression::Integer(x) => Ok(Expression::Integer(x)),
             Expression::Float(x) => Ok(Expression::Integer(x as Int)),
             Expression::String(x) => {
@@ -264,7 +268,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "keys",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("keys", &args)?.eval(env)? {
             Expression::Map(m) => Ok(m.into_keys().collect::<Vec<_>>().into()),
             otherwise => Err(Error::CustomError(format!(
                 "cannot get the keys of {}",
@@ -276,7 +280,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "vals",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("vals", &args)?.eval(env)? {
             Expression::Map(m) => Ok(m.into_values().collect::<Vec<_>>().into()),
             otherwise => Err(Error::CustomError(format!(
                 "cannot get the values of {}",
@@ -294,7 +298,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "len",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("len", &args)?.eval(env)? {
             Expression::Map(m) => Ok(Expression::Integer(m.len() as Int)),
             Expression::List(list) => Ok(Expression::Integer(list.len() as Int)),
             Expression::Symbol(x) | Expression::String(x) => {
@@ -371,7 +375,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "lines",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("lines", &args)?.eval(env)? {
             Expression::String(x) => Ok(Expression::List(
                 x.lines()
                     .map(|ch| Expression::String(ch.to_string()))
@@ -389,14 +393,14 @@ pub fn init(env: &mut Environment) {
         "eval",
         |args, env| {
             let mut new_env = env.clone();
-            args[0].clone().eval(env)?.eval(&mut new_env)
+            first_arg("eval", &args)?.eval(env)?.eval(&mut new_env)
         },
         "evaluate an expression without changing the environment",
     );
 
     env.define_builtin(
         "exec",
-        |args, env| args[0].clone().eval(env)?.eval(env),
+        |args, env| first_arg("exec", &args)?.eval(env)?.eval(env),
         "evaluate an expression in the current environment",
     );
 
@@ -424,7 +428,7 @@ pub fn init(env: &mut Environment) {
     env.define_builtin(
         "report",
         |args, env| {
-            let val = args[0].eval(env)?;
+            let val = first_arg("report", &args)?.eval(env)?;
             match val {
                 Expression::Map(_) => println!("{}", val),
                 Expression::String(s) => println!("{}", s),
@@ -438,6 +442,11 @@ pub fn init(env: &mut Environment) {
     );
 }
 
+fn first_arg<'a>(name: &str, args: &'a [Expression]) -> Result<&'a Expression, Error> {
+    check_args_len(name, args, 1..)?;
+    Ok(&args[0])
+}
+
 fn check_args_len(
     name: impl ToString,
     args: &[Expression],
-- 
2.43.0


From 2c87d06dcc77a0aead809e4eb69afd665c4e4463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:21 +0000
Subject: [PATCH 21/43] fix: insert into a text at an offset inside a character
 crashed

---
 src/binary/init/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index a152a81..7e1049d 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -244,7 +244,7 @@ pub fn init(env: &mut Environment) {
                     }
                 }
                 (Expression::String(s), Expression::Integer(i)) => {
-                    if *i as usize <= s.len() {
+                    if s.is_char_boundary(*i as usize) {
                         s.insert_str(*i as usize, &val.to_string());
                     } else {
                         return Err(Error::CustomError(format!(
-- 
2.43.0


From fa8c61efddcaf55e2cb71f4e6bc9d836b50b0040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:38 +0000
Subject: [PATCH 22/43] fix: fmt@dark@white ended the text with a letter k
 instead of an escape

---
 src/binary/init/fmt_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index e58d170..a61675e 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -104,7 +104,7 @@ pub fn get() -> Expression {
             }, "convert text to cyan on the console"),
 
             String::from("white") => Expression::builtin("white", |args, env| {
-                Ok(format!("\x1b[37m{}\x1b[m\x6b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[37m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to white on the console"),
         }.into()
     })
-- 
2.43.0


From 015ab2df00580205e809dd74236bf9bd3b3061d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:38 +0000
Subject: [PATCH 23/43] fix: fmt functions applied to no operand report it
 instead of crashing

---
 src/binary/init/fmt_module.rs | 46 +++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index a61675e..f2e7d2c 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -15,96 +15,96 @@ pub fn get() -> Expression {
             "create a hyperlink on the console"),
 
         String::from("bold") => Expression::builtin("bold", |args, env| {
-            Ok(format!("\x1b[1m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[1m{}\x1b[m\x1b[0m", super::first_arg("bold", &args)?.eval(env)?).into())
         }, "convert text to bold on the console"),
 
         String::from("faint") => Expression::builtin("faint", |args, env| {
-            Ok(format!("\x1b[2m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[2m{}\x1b[m\x1b[0m", super::first_arg("faint", &args)?.eval(env)?).into())
         }, "convert text to italics on the console"),
 
         String::from("italics") => Expression::builtin("italics", |args, env| {
-            Ok(format!("\x1b[3m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[3m{}\x1b[m\x1b[0m", super::first_arg("italics", &args)?.eval(env)?).into())
         }, "convert text to italics on the console"),
 
         String::from("underline") => Expression::builtin("underline", |args, env| {
-            Ok(format!("\x1b[4m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[4m{}\x1b[m\x1b[0m", super::first_arg("underline", &args)?.eval(env)?).into())
         }, "underline text on the console"),
 
         String::from("blink") => Expression::builtin("blink", |args, env| {
-            Ok(format!("\x1b[5m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[5m{}\x1b[m\x1b[0m", super::first_arg("blink", &args)?.eval(env)?).into())
         }, "blink text on the console"),
 
         String::from("invert") => Expression::builtin("invert", |args, env| {
-            Ok(format!("\x1b[7m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[7m{}\x1b[m\x1b[0m", super::first_arg("invert", &args)?.eval(env)?).into())
         }, "invert text on the console"),
 
         String::from("strike") => Expression::builtin("strike", |args, env| {
-            Ok(format!("\x1b[9m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[9m{}\x1b[m\x1b[0m", super::first_arg("strike", &args)?.eval(env)?).into())
         }, "strike out text on the console"),
 
         String::from("black") => Expression::builtin("black", |args, env| {
-            Ok(format!("\x1b[90m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[90m{}\x1b[m\x1b[0m", super::first_arg("black", &args)?.eval(env)?).into())
         }, "convert text to black on the console"),
 
         String::from("red") => Expression::builtin("red", |args, env| {
-            Ok(format!("\x1b[91m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[91m{}\x1b[m\x1b[0m", super::first_arg("red", &args)?.eval(env)?).into())
         }, "convert text to red on the console"),
 
         String::from("green") => Expression::builtin("green", |args, env| {
-            Ok(format!("\x1b[92m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[92m{}\x1b[m\x1b[0m", super::first_arg("green", &args)?.eval(env)?).into())
         }, "convert text to green on the console"),
 
         String::from("yellow") => Expression::builtin("yellow", |args, env| {
-            Ok(format!("\x1b[93m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[93m{}\x1b[m\x1b[0m", super::first_arg("yellow", &args)?.eval(env)?).into())
         }, "convert text to yellow on the console"),
 
         String::from("blue") => Expression::builtin("blue", |args, env| {
-            Ok(format!("\x1b[94m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[94m{}\x1b[m\x1b[0m", super::first_arg("blue", &args)?.eval(env)?).into())
         }, "convert text to blue on the console"),
 
         String::from("magenta") => Expression::builtin("magenta", |args, env| {
-            Ok(format!("\x1b[95m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[95m{}\x1b[m\x1b[0m", super::first_arg("magenta", &args)?.eval(env)?).into())
         }, "convert text to magenta on the console"),
 
         String::from("cyan") => Expression::builtin("cyan", |args, env| {
-            Ok(format!("\x1b[96m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[96m{}\x1b[m\x1b[0m", super::first_arg("cyan", &args)?.eval(env)?).into())
         }, "convert text to cyan on the console"),
 
         String::from("white") => Expression::builtin("white", |args, env| {
-            Ok(format!("\x1b[97m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+            Ok(format!("\x1b[97m{}\x1b[m\x1b[0m", super::first_arg("white", &args)?.eval(env)?).into())
         }, "convert text to white on the console"),
 
         String::from("dark") => b_tree_map! {
             String::from("black") => Expression::builtin("black", |args, env| {
-                Ok(format!("\x1b[30m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[30m{}\x1b[m\x1b[0m", super::first_arg("black", &args)?.eval(env)?).into())
             }, "convert text to black on the console"),
 
             String::from("red") => Expression::builtin("red", |args, env| {
-                Ok(format!("\x1b[31m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[31m{}\x1b[m\x1b[0m", super::first_arg("red", &args)?.eval(env)?).into())
             }, "convert text to red on the console"),
 
             String::from("green") => Expression::builtin("green", |args, env| {
-                Ok(format!("\x1b[32m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[32m{}\x1b[m\x1b[0m", super::first_arg("green", &args)?.eval(env)?).into())
             }, "convert text to green on the console"),
 
             String::from("yellow") => Expression::builtin("yellow", |args, env| {
-                Ok(format!("\x1b[33m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[33m{}\x1b[m\x1b[0m", super::first_arg("yellow", &args)?.eval(env)?).into())
             }, "convert text to yellow on the console"),
 
             String::from("blue") => Expression::builtin("blue", |args, env| {
-                Ok(format!("\x1b[34m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[34m{}\x1b[m\x1b[0m", super::first_arg("blue", &args)?.eval(env)?).into())
             }, "convert text to blue on the console"),
 
             String::from("magenta") => Expression::builtin("magenta", |args, env| {
-                Ok(format!("\x1b[35m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[35m{}\x1b[m\x1b[0m", super::first_arg("magenta", &args)?.eval(env)?).into())
             }, "convert text to magenta on the console"),
 
             String::from("cyan") => Expression::builtin("cyan", |args, env| {
-                Ok(format!("\x1b[36m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[36m{}\x1b[m\x1b[0m", super::first_arg("cyan", &args)?.eval(env)?).into())
             }, "convert text to cyan on the console"),
 
             String::from("white") => Expression::builtin("white", |args, env| {
-                Ok(format!("\x1b[37m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[37m{}\x1b[m\x1b[0m", super::first_arg("white", &args)?.eval(env)?).into())
             }, "convert text to white on the console"),
         }.into()
     })
-- 
2.43.0


From e7ba921e340d875f1b65478a74cc229b025e1e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:01 +0000
Subject: [PATCH 24/43] fix: rand@int and rand@choose crashed when there was
 nothing to choose from

---
 src/binary/init/rand_module.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary/init/rand_module.rs b/src/binary/init/rand_module.rs
index dcfe21e..2e53ea2 100644
--- a/src/binary/init/rand_module.rs
+++ b/src/binary/init/rand_module.rs
@@ -14,6 +14,9 @@ pub fn get() -> Expression {
 fn int(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     super::check_exact_args_len("int", &args, 2)?;
     match (args[0].eval(env)?, args[1].eval(env)?) {
+        (Expression::Integer(l), Expression::Integer(h)) if l >= h => Err(Error::CustomError(
+            format!("there is no integer from {} to {} (exclusive)", l, h),
+        )),
         (Expression::Integer(l), Expression::Integer(h)) => {
             let mut rng = rand::thread_rng();
             let n = Uniform::new(l, h);
@@ -29,6 +32,9 @@ fn int(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
 fn choose(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     super::check_exact_args_len("choose", &args, 1)?;
     match args[0].eval(env)? {
+        Expression::List(list) if list.is_empty() => Err(Error::CustomError(
+            "cannot choose from an empty list".to_string(),
+        )),
         Expression::List(list) => {
             let mut rng = rand::thread_rng();
             let n = Uniform::new(0, list.len());
-- 
2.43.0


From bb1897018ec3573217df7ec1bb7617490d42afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:08 +0000
Subject: [PATCH 25/43] fix: sys@eval and sys@exec applied to no operand report
 it instead of crashing

---
 src/binary/init/sys_module.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 3ab218b..9675852 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -20,11 +20,13 @@ pub fn get() -> Expression {
         }, "quote an expression"),
 
         String::from("eval") => Expression::builtin("eval", |args, env| {
+            super::check_args_len("eval", &args, 1..)?;
             let mut new_env = env.clone();
             args[0].clone().eval(env)?.eval(&mut new_env)
         }, "evaluate an expression without changing the environment"),
 
         String::from("exec") => Expression::builtin("exec", |args, env| {
+            super::check_args_len("exec", &args, 1..)?;
             args[0].clone().eval(env)?.eval(env)
         }, "evaluate an expression in the current environment"),
 
-- 
2.43.0


From 842280335542d24d886b44a52ef6541ef7519f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:45 +0000
Subject: [PATCH 26/43] fix: sys@cd and os@cd into a directory whose name is
 not unicode report it instead of crashing

---
 src/binary/init/os_module.rs  | 6 +++++-
 src/binary/init/sys_module.rs | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/os_module.rs b/src/binary/init/os_module.rs
index 01ae0c7..9eb57fb 100644
--- a/src/binary/init/os_module.rs
+++ b/src/binary/init/os_module.rs
@@ -53,6 +53,10 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
+            let name = new_cwd.to_str().ok_or_else(|| {
+                dune::Error::CustomError(format!("the path {:?} is not valid unicode", new_cwd))
+            })?;
+
             std::env::set_current_dir(&new_cwd).map_err(|e| {
                 dune::Error::CustomError(match format!("{:?}", e.kind()).as_str() {
                     "PermissionDenied" => {
@@ -68,7 +72,7 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
-            env.set_cwd(new_cwd.into_os_string().into_string().unwrap());
+            env.set_cwd(name);
             Ok(Expression::None)
         }
 
diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 9675852..6970dd8 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -58,8 +58,12 @@ pub fn get() -> Expression {
             let path = cwd.join(args[0].eval(env)?.to_string());
 
             if let Ok(canon_path) = dunce::canonicalize(&path) {
-                env.set_cwd(canon_path.to_str().unwrap().to_string());
-                Ok(Expression::None)
+                if let Some(path) = canon_path.to_str() {
+                    env.set_cwd(path);
+                    Ok(Expression::None)
+                } else {
+                    Err(Error::CustomError(format!("the path {} is not valid unicode", canon_path.display())))
+                }
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
             }
-- 
2.43.0


From 49382845f7e9a3bf5854f9c12159e6caad149e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:13 +0000
Subject: [PATCH 27/43] fix: fmt@wrap to a negative or huge number of columns
 crashed

---
 src/binary/init/fmt_module.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index f2e7d2c..6b3cfc5 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -114,8 +114,11 @@ pub fn get() -> Expression {
 fn wrap(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     super::check_exact_args_len("wrap", &args, 2)?;
     match args[1].eval(env)? {
-        Expression::Integer(columns) => {
-            Ok(textwrap::fill(&args[0].eval(env)?.to_string(), columns as usize).into())
+        Expression::Integer(columns) if columns >= 0 => {
+            let text = args[0].eval(env)?.to_string();
+            // No line is wider than the text, and textwrap overflows on huge widths.
+            let columns = text.len().min(columns as usize);
+            Ok(textwrap::fill(&text, columns).into())
         }
         otherwise => Err(Error::CustomError(format!(
             "expected number of columns in wrap, but got {}",
-- 
2.43.0


From 3842ada76a0ecf112dedb4019a84aa7fd4ed3460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:14 +0000
Subject: [PATCH 28/43] fix: console@write of several lines at the last row
 numbers overflowed

---
 src/binary/init/console_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index 0634696..3452913 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -214,7 +214,7 @@ fn write(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
                 print!(
                     "\x1b[s\x1b[{row};{column}H\x1b[{row};{column}f{content}\x1b[u",
                     column = x,
-                    row = y + y_offset as Int,
+                    row = y.saturating_add(y_offset as Int),
                     content = line
                 );
             }
-- 
2.43.0


From fce7f81cdd79d21282fa9385ee0d0d9651b40e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:06 +0000
Subject: [PATCH 29/43] fix: log@disable and log@get-level refused the operand
 every call without operands gives

---
 src/binary/init/log_module.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/log_module.rs b/src/binary/init/log_module.rs
index b04fa28..24aa84d 100644
--- a/src/binary/init/log_module.rs
+++ b/src/binary/init/log_module.rs
@@ -43,13 +43,11 @@ pub fn get() -> Expression {
             }
         }, "set the log level"),
 
-        String::from("get-level") => Expression::builtin("get-level", |args, _env| {
-            super::check_exact_args_len("get-level", &args, 0)?;
+        String::from("get-level") => Expression::builtin("get-level", |_args, _env| {
             return Ok(Expression::Integer(*LOG_LEVEL.read().unwrap()))
         }, "get the log level"),
 
-        String::from("disable") => Expression::builtin("disable", |args, _env| {
-            super::check_exact_args_len("disable", &args, 0)?;
+        String::from("disable") => Expression::builtin("disable", |_args, _env| {
             *LOG_LEVEL.write().unwrap() = NONE;
             Ok(Expression::None)
         }, "disable logging"),
-- 
2.43.0


From e0d70d21234052d21122faff913b949d10c86c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:00 +0000
Subject: [PATCH 30/43] fix: fs@tail returned the last lines of a file in
 reverse order

---
 src/binary/init/fs_module.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 550111d..8c7e44f 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -148,15 +148,20 @@ pub fn get(env: &mut Environment) -> Expression {
 
             if let Ok(contents) = std::fs::read_to_string(path) {
                 let mut lines = contents.lines().rev();
-                let mut result = String::new();
+                let mut last = vec![];
                 for _ in 0..n {
                     if let Some(line) = lines.next() {
-                        result.push_str(line);
-                        result.push('\n');
+                        last.push(line);
                     } else {
                         break;
                     }
                 }
+                // The lines were taken from the end of the file: put them back in order.
+                let mut result = String::new();
+                for line in last.into_iter().rev() {
+                    result.push_str(line);
+                    result.push('\n');
+                }
                 Ok(result.into())
             } else {
                 Err(Error::CustomError(format!("could not read file {}", file)))
-- 
2.43.0


From 881fef8e38e5fac874971520d0f6db772a2a4d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:00 +0000
Subject: [PATCH 31/43] fix: fs@glob with an invalid pattern crashed

---
 src/binary/init/fs_module.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 8c7e44f..75cbf09 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -333,7 +333,12 @@ pub fn get(env: &mut Environment) -> Expression {
             let pattern = args[0].eval(env)?.to_string();
             let mut result = vec![];
 
-            for entry in glob::glob(&pattern).unwrap() {
+            let entries = match glob::glob(&pattern) {
+                Ok(entries) => entries,
+                Err(e) => return Err(Error::CustomError(format!("could not glob pattern {}: {:?}", pattern, e)))
+            };
+
+            for entry in entries {
                 match entry {
                     Ok(path) => {
                         // Strip prefix from path
-- 
2.43.0


From 60e0f23f41a9e6e857630612047bf2b34ec3ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:00 +0000
Subject: [PATCH 32/43] fix: fs@canon of a path that leads to a name that is
 not Unicode crashed

---
 src/binary/init/fs_module.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 75cbf09..f43104d 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -173,7 +173,10 @@ pub fn get(env: &mut Environment) -> Expression {
             let path = cwd.join(args[0].eval(env)?.to_string());
 
             if let Ok(canon_path) = dunce::canonicalize(&path) {
-                Ok(canon_path.into_os_string().into_string().unwrap().into())
+                match canon_path.into_os_string().into_string() {
+                    Ok(canon_path) => Ok(canon_path.into()),
+                    Err(_) => Err(Error::CustomError(format!("the canonical path of {} is not valid Unicode", path.display())))
+                }
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
             }
-- 
2.43.0


From e419cd582d40a1909608768f98f526dcfc97fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:00 +0000
Subject: [PATCH 33/43] fix: fs@tree ignored its maximum depth, and crashed at
 the root directory

---
 src/binary/init/fs_module.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index f43104d..9c484df 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -12,11 +12,16 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
     let mut dir_tree = b_tree_map! {};
 
     dir_tree.insert(".".to_string(), Expression::from(cwd.to_str().unwrap()));
+    // The root has no parent: as everywhere else, `..` leads back to it.
     dir_tree.insert(
         "..".to_string(),
-        Expression::from(cwd.parent().unwrap().to_str().unwrap()),
+        Expression::from(cwd.parent().unwrap_or(cwd).to_str().unwrap()),
     );
 
+    if matches!(max_depth, Some(d) if d <= 0) {
+        return dir_tree;
+    }
+
     if let Ok(entries) = std::fs::read_dir(cwd) {
         for entry in entries.flatten() {
             let path = entry.path();
-- 
2.43.0


From f97067e3275563b2c235d5a550c79ba7b70fc76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:21 +0000
Subject: [PATCH 34/43] fix: fmt@wrap of long texts to wide lines crashed

---
 src/binary/init/fmt_module.rs |  4 +---
 src/binary/init/mod.rs        | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index 6b3cfc5..eea332a 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -116,9 +116,7 @@ fn wrap(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Erro
     match args[1].eval(env)? {
         Expression::Integer(columns) if columns >= 0 => {
             let text = args[0].eval(env)?.to_string();
-            // No line is wider than the text, and textwrap overflows on huge widths.
-            let columns = text.len().min(columns as usize);
-            Ok(textwrap::fill(&text, columns).into())
+            Ok(super::fill(&text, columns as usize).into())
         }
         otherwise => Err(Error::CustomError(format!(
             "expected number of columns in wrap, but got {}",
diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index 7e1049d..8259bfb 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -442,6 +442,20 @@ pub fn init(env: &mut Environment) {
     );
 }
 
+/// Wrap text to a number of columns.
+fn fill(text: &str, columns: usize) -> String {
+    // No line is wider than the text.
+    let columns = columns.min(text.len());
+    // textwrap adds up the costs of its best layout in 32 bits, which is too little for
+    // long texts and lines.
+    if text.len().saturating_mul(columns.max(1000)) <= 200_000_000 {
+        textwrap::fill(text, columns)
+    } else {
+        let greedy = textwrap::wrap_algorithms::FirstFit;
+        textwrap::fill(text, textwrap::Options::new(columns).wrap_algorithm(greedy))
+    }
+}
+
 fn first_arg<'a>(name: &str, args: &'a [Expression]) -> Result<&'a Expression, Error> {
     check_args_len(name, args, 1..)?;
     Ok(&args[0])
-- 
2.43.0


From 184118e6d48d4800563a17d989a770234fa80a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:21 +0000
Subject: [PATCH 35/43] fix: widget@create with a width above 98304 crashed

---
 src/binary/init/widget_module.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index 02ca2be..d2f6250 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -25,8 +25,9 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
         }
     } as usize
         - 2;
-    let format_width = text_width * 2 / 3;
-    let text = textwrap::fill(
+    // The width of formatted text is limited to 16 bits.
+    let format_width = (text_width * 2 / 3).min(u16::MAX as usize);
+    let text = super::fill(
         &format!("{:format_width$}", args[1].eval(env)?.to_string()),
         text_width,
     );
-- 
2.43.0


From 9667c180b715b3fa1c8e0169e16ca767958a53a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:21 +0000
Subject: [PATCH 36/43] fix: widgets of text with characters of no width were
 higher than asked for

---
 src/binary/init/widget_module.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index d2f6250..d0bf894 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -77,6 +77,11 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
                 i = width;
             } else {
                 result.push(ch);
+                // A full row ends even where the text has no line break.
+                if i == width - 1 {
+                    lines += 1;
+                    i = width;
+                }
             }
 
             if lines == widget_height - 1 {
-- 
2.43.0


From b248d6523403f4c76f32ba07f4519c26c0b194ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:21 +0000
Subject: [PATCH 37/43] fix: widget@joiny of blank texts crashed

---
 src/binary/init/widget_module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index d0bf894..7ea628d 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -167,8 +167,8 @@ fn joiny(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
             Expression::String(s) => {
                 string_args.push(s.trim().to_string());
 
-                let width = string_args[0].lines().next().unwrap().chars().count();
-                let this_width = string_args[i].lines().next().unwrap().chars().count();
+                let width = string_args[0].lines().next().unwrap_or("").chars().count();
+                let this_width = string_args[i].lines().next().unwrap_or("").chars().count();
                 if width != this_width {
                     return Err(Error::CustomError(format!(
                         "Widths of vertically added widgets must be equal, \
-- 
2.43.0


From 6c39c02258c5c62e8aa7cd000ced81d22c99b727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:32 +0000
Subject: [PATCH 38/43] fix: displaying a map with a list under a long key
 crashed

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 9f84638..0bac4ae 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -304,7 +304,7 @@ impl fmt::Display for Expression {
                             t.add_row(row!(key, format!("{:specified_width$}", val)));
                         }
                         Self::List(_) => {
-                            let w = specified_width - key.len() - 3;
+                            let w = specified_width.saturating_sub(key.len() + 3);
                             let formatted = format!("{:w$}", val);
                             t.add_row(row!(key, textwrap::fill(&formatted, w),));
                         }
-- 
2.43.0


From 4633af8285ffa30b3af8270f4386cf4e7c5a1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:52 +0000
Subject: [PATCH 39/43] fix: reports of syntax errors at the start of a line
 named and showed the line before

---
 src/error.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 0a64a1b..97587dc 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -1,7 +1,7 @@
 use common_macros::b_tree_map;
 use detached_str::{Str, StrSlice};
 
-use core::{cmp::max, fmt};
+use core::fmt;
 
 use crate::Diagnostic;
 
@@ -199,10 +199,15 @@ fn print_error_lines(
     let before = &string[..at.start()];
     let after = &string[at.end()..];
 
-    let line_before = before.lines().next_back().unwrap_or_default();
-    let line_after = after.lines().next().unwrap_or_default();
+    // `lines` leaves out a line which has just begun
+    let line_before = before.split('\n').next_back().unwrap_or_default();
+    let line_after = if at.to_str(string).ends_with('\n') {
+        ""
+    } else {
+        after.lines().next().unwrap_or_default()
+    };
 
-    let first_line_number = max(before.lines().count(), 1);
+    let first_line_number = before.split('\n').count();
 
     writeln!(f, "      |")?;
 
-- 
2.43.0


From 0552141e57e7bcd69d885ea0423f2f8fffa0e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:45 +0000
Subject: [PATCH 40/43] fix: commands were suggested that do not begin with
 what was typed

---
 src/bin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index c85931b..23ed128 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -331,8 +331,8 @@ impl Hinter for DuneHelper {
             return self.hinter.hint(line, pos, ctx);
         } else {
             for cmd in &cmds {
-                if cmd.contains(line) {
-                    return Some(cmd.trim_start_matches(line).to_string());
+                if let Some(rest) = cmd.strip_prefix(line) {
+                    return Some(rest.to_string());
                 }
             }
         }
-- 
2.43.0


From 000392e5422985bf780936c29bdcc1156a964e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:45 +0000
Subject: [PATCH 41/43] fix: errors of macros called at the prompt were not
 reported

---
 src/bin.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index 23ed128..a0298df 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -497,21 +497,27 @@ fn repl(
                     }
                     Ok(Expression::None) => {}
                     Ok(Expression::Macro(_, _)) => {
-                        let _ = Expression::Apply(
+                        if let Err(e) = Expression::Apply(
                             Box::new(Expression::Symbol("report".to_string())),
                             vec![Expression::Apply(
                                 Box::new(val.unwrap().clone()),
                                 vec![env.get_cwd().into()],
                             )],
                         )
-                        .eval(&mut env);
+                        .eval(&mut env)
+                        {
+                            eprintln!("{}", e)
+                        }
                     }
                     Ok(val) => {
-                        let _ = Expression::Apply(
+                        if let Err(e) = Expression::Apply(
                             Box::new(Expression::Symbol("report".to_string())),
                             vec![Expression::Quote(Box::new(val))],
                         )
-                        .eval(&mut env);
+                        .eval(&mut env)
+                        {
+                            eprintln!("{}", e)
+                        }
                     }
                     Err(e) => {
                         eprintln!("{}", e)
-- 
2.43.0


From 8b4cafbf758229c4546196a5031c9568e1618c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:45 +0000
Subject: [PATCH 42/43] fix: the value of a text given with --exec was
 evaluated again

---
 src/bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin.rs b/src/bin.rs
index a0298df..0c479cf 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -624,7 +624,7 @@ fn main() -> Result<(), Error> {
             Ok(result) => {
                 Expression::Apply(
                     Box::new(Expression::Symbol("report".to_string())),
-                    vec![result],
+                    vec![Expression::Quote(Box::new(result))],
                 )
                 .eval(&mut env)?;
             }
-- 
2.43.0


From 3963fa91918342b2fbab6052261c27172e2a2778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:41 +0000
Subject: [PATCH 43/43] fix: sleeping for a negative number of milliseconds
 never ended

---
 src/binary/init/time_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/time_module.rs b/src/binary/init/time_module.rs
index 6f23fc2..661fd48 100644
--- a/src/binary/init/time_module.rs
+++ b/src/binary/init/time_module.rs
@@ -19,7 +19,7 @@ fn sleep(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
 
     match args[0].eval(env)? {
         Expression::Float(n) => thread::sleep(Duration::from_millis(n as u64)),
-        Expression::Integer(n) => thread::sleep(Duration::from_millis(n as u64)),
+        Expression::Integer(n) => thread::sleep(Duration::from_millis(n.max(0) as u64)),
         otherwise => {
             return Err(Error::CustomError(format!(
                 "expected integer or float, but got {}",
-- 
2.43.0

