From 3eee10c7e155f6ba7989eb41d182203f0d2c7878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 01/11] fix: keep an expression valid when a user function
 panics during in-place simplification

---
 src/xprs.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 3ef4b7f..1d79545 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -1,7 +1,7 @@
 /* Clippy Config */
 #![allow(clippy::std_instead_of_core)]
 /* Built-in imports */
-use core::{fmt, ptr};
+use core::fmt;
 use std::collections::{HashMap, HashSet};
 /* Crate imports */
 use crate::{
@@ -10,7 +10,7 @@ use crate::{
     token::Operator,
     utils::{
         factorial::factorial,
-        hidden_macros::{trust_me, yeet},
+        hidden_macros::yeet,
     },
 };
 
@@ -141,10 +141,7 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
-        let mut tmp = trust_me!(ptr::read(&self.root));
-        tmp = tmp.simplify_for(var);
-        trust_me!(ptr::write(&mut self.root, tmp););
-        self.vars.remove(var.0);
+        self.simplify_for_multiple_in_place(&[var]);
     }
 
     /// Simple wrapper around [`Xprs::eval`] that doesn't require any variables.
@@ -217,13 +214,16 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_multiple_in_place(&mut self, vars: &[(&str, f64)]) {
-        // rewriting `simplify_for_in_place` to avoid dozens of `ptr::read` and `ptr::write`
-        let mut tmp = trust_me!(ptr::read(&self.root));
+        // Works on a copy: simplifying can call user functions, if one of them
+        // panics `self` must still own its (unchanged) root.
+        let mut root = self.root.clone();
         for &var in vars {
-            tmp = tmp.simplify_for(var);
-            self.vars.remove(var.0);
+            root = root.simplify_for(var);
+        }
+        self.root = root;
+        for &(name, _) in vars {
+            self.vars.remove(name);
         }
-        trust_me!(ptr::write(&mut self.root, tmp););
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
-- 
2.43.0


From f4a7b389d020b063bc15ee96ffd7d007204dd00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 02/11] fix: report only the variables left after a
 simplification

---
 src/xprs.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 1d79545..d072413 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -220,10 +220,11 @@ impl Xprs<'_> {
         for &var in vars {
             root = root.simplify_for(var);
         }
+        // simplifying can eliminate more variables than the given ones
+        let mut remaining = HashSet::default();
+        root.find_variables(&mut remaining);
         self.root = root;
-        for &(name, _) in vars {
-            self.vars.remove(name);
-        }
+        self.vars = remaining;
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
-- 
2.43.0


From 8be89fc23afb656b009bf8e229aaa6aa73561eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 03/11] fix: report undeclared variables in a reproducible way

---
 src/parser.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index dd92346..68b27bd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -90,14 +90,17 @@ impl<'ctx> Parser<'ctx> {
 
         // Check if no unknown variable was found
         if let Some(expected) = self.ctx.get_expected_vars() {
-            if let Some(unknown_var) = xprs.vars.difference(expected).next() {
+            // sets have no order of their own: always report the same error
+            if let Some(unknown_var) = xprs.vars.difference(expected).min() {
+                let mut available_vars = expected
+                    .iter()
+                    .map(|&str| str.to_owned())
+                    .collect::<Vec<_>>();
+                available_vars.sort_unstable();
                 yeet!(ParseError::new_variable_not_declared(
                     input,
                     unknown_var,
-                    expected
-                        .iter()
-                        .map(|&str| str.to_owned())
-                        .collect::<Vec<_>>()
+                    available_vars
                 ))
             }
         }
-- 
2.43.0


From 4f86a3beb50cab6d3cb08a7c0fa8133141b3bd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 04/11] fix: report any number of missing variables when
 binding, in a reproducible order

---
 src/xprs.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index d072413..4d29ae4 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -747,20 +747,13 @@ impl BindError {
     fn from_diff(
         missing_vars: Difference<'_, &str, RandomState>,
     ) -> Option<Self> {
-        let mut peekable = missing_vars.peekable();
-        let mut count: u8 = 0;
-        let mut missing_vars_str = String::new();
-        while let Some(missing_var) = peekable.next() {
-            count += 1;
-            missing_vars_str.push_str(missing_var);
-            if peekable.peek().is_some() {
-                missing_vars_str.push_str(", ");
-            }
-        }
-        match count {
+        let mut names: Vec<&str> = missing_vars.copied().collect();
+        // sets have no order of their own: always report the same error
+        names.sort_unstable();
+        match names.len() {
             0 => None,
-            1 => Some(Self::OneVariable(missing_vars_str)),
-            _ => Some(Self::MultipleVariables(missing_vars_str)),
+            1 => Some(Self::OneVariable(names.concat())),
+            _ => Some(Self::MultipleVariables(names.join(", "))),
         }
     }
 }
-- 
2.43.0


From 5e601f709cb5cef31da2ac719070d71544376e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 05/11] fix: do not panic on an empty expression

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 68b27bd..61dd3b9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -569,7 +569,7 @@ impl ParseError {
             kind: ErrorKind::UnexpectedEndOfExpression,
             // - 1 because we want to point to the last character
             // (without it, we would point to a `None` value)
-            span: (parser.cursor - 1).into(),
+            span: parser.cursor.saturating_sub(1).into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
     }
-- 
2.43.0


From 47d3635283ec0bd93029c6e2cad2fd45c087c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 06/11] fix: reject a repeated factorial instead of panicking

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 61dd3b9..6939f69 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -416,6 +416,10 @@ impl ParserImpl<'_, '_> {
         let current_byte = *self.next_trim()?;
         // check for binary operator
         if let Ok(op) = Operator::try_from(current_byte) {
+            // a postfix operator can't join two operands
+            if matches!(op, Operator::Factorial) {
+                return None;
+            }
             let op_p = precedence::get_for_op(op);
             if op_p <= precedence {
                 return None;
-- 
2.43.0


From 8f21928020a194a9095370a5d2527610f79b8702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 07/11] fix: end a REPL session cleanly at the end of input

---
 src/bin/repl.rs | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/bin/repl.rs b/src/bin/repl.rs
index 55c4100..52d4417 100644
--- a/src/bin/repl.rs
+++ b/src/bin/repl.rs
@@ -24,7 +24,11 @@ fn main() -> Result<(), Box<dyn Error>> {
     loop {
         print!(">> ");
         io::stdout().lock().flush()?;
-        io::stdin().read_line(&mut input)?;
+        if io::stdin().read_line(&mut input)? == 0 {
+            // end of input
+            println!();
+            break;
+        }
         match &input {
             line if line.trim() == "exit" => break,
             line => match parser.parse(line) {
@@ -32,7 +36,11 @@ fn main() -> Result<(), Box<dyn Error>> {
                     println!("Interpreted as: {ast}");
                     println!("{ast:#?}");
                     println!("Variables: {:?}", ast.vars);
-                    let variables = ask_for_variables(&ast.vars);
+                    let Some(variables) = ask_for_variables(&ast.vars)? else {
+                        // end of input
+                        println!();
+                        break;
+                    };
                     println!(
                         "Evaluated: {:#?}",
                         ast.eval(&variables).unwrap_or_else(|_| unreachable!())
@@ -48,26 +56,28 @@ fn main() -> Result<(), Box<dyn Error>> {
     Ok(())
 }
 
-/// Ask the user for the value of the variables in the given set.
-fn ask_for_variables<'a>(set: &'a HashSet<&str>) -> HashMap<&'a str, f64> {
+/// Ask the user for the value of the variables in the given set,
+/// `None` if the input ended before all of them were given.
+fn ask_for_variables<'a>(
+    set: &HashSet<&'a str>,
+) -> io::Result<Option<HashMap<&'a str, f64>>> {
     if !set.is_empty() {
         println!("Please enter the following variables:");
     }
 
-    set.iter().fold(HashMap::new(), |mut acc, var| {
+    let mut values = HashMap::new();
+    for &var in set {
         print!("{var}: ");
-        io::stdout().lock().flush().expect("Failed to flush stdout");
+        io::stdout().lock().flush()?;
         let mut input = String::new();
-        io::stdin()
-            .read_line(&mut input)
-            .expect("Failed to read line");
-        acc.insert(
-            var,
-            input
-                .trim()
-                .parse()
-                .expect("Failed to parse input as a number"),
-        );
-        acc
-    })
+        if io::stdin().read_line(&mut input)? == 0 {
+            return Ok(None);
+        }
+        let value = input
+            .trim()
+            .parse()
+            .expect("Failed to parse input as a number");
+        values.insert(var, value);
+    }
+    Ok(Some(values))
 }
-- 
2.43.0


From 171867d3ff1210bb581584f7003aa8a7a3b6b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 08/11] fix: ask for REPL variables again until usable, in a
 reproducible order

---
 src/bin/repl.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/bin/repl.rs b/src/bin/repl.rs
index 52d4417..c937a78 100644
--- a/src/bin/repl.rs
+++ b/src/bin/repl.rs
@@ -65,18 +65,24 @@ fn ask_for_variables<'a>(
         println!("Please enter the following variables:");
     }
 
+    // sets have no order of their own: always ask in the same order
+    let mut vars: Vec<&'a str> = set.iter().copied().collect();
+    vars.sort_unstable();
+
     let mut values = HashMap::new();
-    for &var in set {
-        print!("{var}: ");
-        io::stdout().lock().flush()?;
-        let mut input = String::new();
-        if io::stdin().read_line(&mut input)? == 0 {
-            return Ok(None);
-        }
-        let value = input
-            .trim()
-            .parse()
-            .expect("Failed to parse input as a number");
+    for var in vars {
+        let value = loop {
+            print!("{var}: ");
+            io::stdout().lock().flush()?;
+            let mut input = String::new();
+            if io::stdin().read_line(&mut input)? == 0 {
+                return Ok(None);
+            }
+            match input.trim().parse() {
+                Ok(value) => break value,
+                Err(_) => println!("Not a number, please try again."),
+            }
+        };
         values.insert(var, value);
     }
     Ok(Some(values))
-- 
2.43.0


From f6c9ffa518c8d7bd578713e5a340a434ca29259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 09/11] fix: list the variables of an expression in a
 reproducible order

---
 src/bin/repl.rs |  7 +++++--
 src/xprs.rs     | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/bin/repl.rs b/src/bin/repl.rs
index c937a78..fd09ca2 100644
--- a/src/bin/repl.rs
+++ b/src/bin/repl.rs
@@ -8,7 +8,7 @@
 )]
 /* Built-in imports */
 #![allow(clippy::std_instead_of_core)]
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 use std::error::Error;
 use std::io::{self, Write};
 /* Crate imports */
@@ -35,7 +35,10 @@ fn main() -> Result<(), Box<dyn Error>> {
                 Ok(ast) => {
                     println!("Interpreted as: {ast}");
                     println!("{ast:#?}");
-                    println!("Variables: {:?}", ast.vars);
+                    println!(
+                        "Variables: {:?}",
+                        ast.vars.iter().collect::<BTreeSet<_>>()
+                    );
                     let Some(variables) = ask_for_variables(&ast.vars)? else {
                         // end of input
                         println!();
diff --git a/src/xprs.rs b/src/xprs.rs
index 4d29ae4..722fc9a 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -2,7 +2,7 @@
 #![allow(clippy::std_instead_of_core)]
 /* Built-in imports */
 use core::fmt;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 /* Crate imports */
 use crate::{
     element::Element,
@@ -15,7 +15,7 @@ use crate::{
 };
 
 /// Represents a mathematical expression and its variables.
-#[derive(Debug, PartialEq, Clone)]
+#[derive(PartialEq, Clone)]
 #[non_exhaustive]
 pub struct Xprs<'a> {
     /// The root element of the expression.
@@ -35,6 +35,17 @@ impl<'input> TryFrom<&'input str> for Xprs<'input> {
     }
 }
 
+impl fmt::Debug for Xprs<'_> {
+    #[inline]
+    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+        fmt.debug_struct("Xprs")
+            .field("root", &self.root)
+            // sets have no order of their own: always render the same text
+            .field("vars", &self.vars.iter().collect::<BTreeSet<_>>())
+            .finish()
+    }
+}
+
 impl fmt::Display for Xprs<'_> {
     #[inline]
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-- 
2.43.0


From b40767733001306b2712e27cb29dd5579175ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 10/11] fix: render contexts in a reproducible order

---
 src/context.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index c329c13..5fd742e 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,8 @@
+/* Clippy Config */
+#![allow(clippy::std_instead_of_core)]
 /* Built-in imports */
-use std::collections::{HashMap, HashSet};
+use core::fmt;
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 /* Crate imports */
 use crate::token::Function;
 
@@ -50,7 +53,7 @@ impl From<Function> for Symbol {
 /// let expected_vars = context.get_expected_vars();
 /// assert_eq!(expected_vars, Some(&["y"].into()));
 /// ```
-#[derive(Debug, Default, PartialEq, Clone)]
+#[derive(Default, PartialEq, Clone)]
 pub struct Context<'names> {
     /// The symbols that are available in the context.
     symbols: HashMap<&'names str, Symbol>,
@@ -58,6 +61,21 @@ pub struct Context<'names> {
     expected_vars: Option<HashSet<&'names str>>,
 }
 
+impl fmt::Debug for Context<'_> {
+    #[inline]
+    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let expected_vars = self.expected_vars.as_ref();
+        // maps and sets have no order of their own: always render the same text
+        fmt.debug_struct("Context")
+            .field("symbols", &self.symbols.iter().collect::<BTreeMap<_, _>>())
+            .field(
+                "expected_vars",
+                &expected_vars.map(|vars| vars.iter().collect::<BTreeSet<_>>()),
+            )
+            .finish()
+    }
+}
+
 impl<'names> Context<'names> {
     /// Sets the value of a variable in the context.
     #[inline]
-- 
2.43.0


From 7a756f22bf057b4765a3f484c7759a5ab1944785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 11/11] fix: render sets and maps without memory that an
 interruption leaks

Collecting into a B-tree leaks its nodes when an allocation fails
midway; sort a vector instead.
---
 src/context.rs      | 15 +++++++--------
 src/utils/mod.rs    |  2 ++
 src/utils/sorted.rs | 31 +++++++++++++++++++++++++++++++
 src/xprs.rs         |  5 +++--
 4 files changed, 43 insertions(+), 10 deletions(-)
 create mode 100644 src/utils/sorted.rs

diff --git a/src/context.rs b/src/context.rs
index 5fd742e..6cfc9ae 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -2,9 +2,12 @@
 #![allow(clippy::std_instead_of_core)]
 /* Built-in imports */
 use core::fmt;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{HashMap, HashSet};
 /* Crate imports */
-use crate::token::Function;
+use crate::{
+    token::Function,
+    utils::sorted::{SortedMap, SortedSet},
+};
 
 /// Represents a symbol in the context.
 #[derive(Debug, PartialEq, PartialOrd, Clone)]
@@ -64,14 +67,10 @@ pub struct Context<'names> {
 impl fmt::Debug for Context<'_> {
     #[inline]
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let expected_vars = self.expected_vars.as_ref();
         // maps and sets have no order of their own: always render the same text
         fmt.debug_struct("Context")
-            .field("symbols", &self.symbols.iter().collect::<BTreeMap<_, _>>())
-            .field(
-                "expected_vars",
-                &expected_vars.map(|vars| vars.iter().collect::<BTreeSet<_>>()),
-            )
+            .field("symbols", &SortedMap(&self.symbols))
+            .field("expected_vars", &self.expected_vars.as_ref().map(SortedSet))
             .finish()
     }
 }
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index d0ab84d..cecf92a 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -7,3 +7,5 @@ pub mod factorial;
 pub mod hidden_macros;
 /// Module containing the precedence logic for the operators.
 pub mod precedence;
+/// Module containing the ordered rendering of sets and maps.
+pub mod sorted;
diff --git a/src/utils/sorted.rs b/src/utils/sorted.rs
new file mode 100644
index 0000000..4924aa5
--- /dev/null
+++ b/src/utils/sorted.rs
@@ -0,0 +1,31 @@
+//! Rendering of hashed collections in an order that does not depend on their hashes.
+
+/* Clippy Config */
+#![allow(clippy::std_instead_of_core)]
+/* Built-in imports */
+use core::fmt;
+use std::collections::{HashMap, HashSet};
+
+/// A set that renders its elements in increasing order.
+pub struct SortedSet<'set, 'names>(pub &'set HashSet<&'names str>);
+
+impl fmt::Debug for SortedSet<'_, '_> {
+    #[inline]
+    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let mut names: Vec<_> = self.0.iter().collect();
+        names.sort_unstable();
+        fmt.debug_set().entries(names).finish()
+    }
+}
+
+/// A map that renders its entries in increasing order of their keys.
+pub struct SortedMap<'map, 'names, V>(pub &'map HashMap<&'names str, V>);
+
+impl<V: fmt::Debug> fmt::Debug for SortedMap<'_, '_, V> {
+    #[inline]
+    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let mut entries: Vec<_> = self.0.iter().collect();
+        entries.sort_unstable_by_key(|&(name, _)| name);
+        fmt.debug_map().entries(entries).finish()
+    }
+}
diff --git a/src/xprs.rs b/src/xprs.rs
index 722fc9a..96213c0 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -2,7 +2,7 @@
 #![allow(clippy::std_instead_of_core)]
 /* Built-in imports */
 use core::fmt;
-use std::collections::{BTreeSet, HashMap, HashSet};
+use std::collections::{HashMap, HashSet};
 /* Crate imports */
 use crate::{
     element::Element,
@@ -11,6 +11,7 @@ use crate::{
     utils::{
         factorial::factorial,
         hidden_macros::yeet,
+        sorted::SortedSet,
     },
 };
 
@@ -41,7 +42,7 @@ impl fmt::Debug for Xprs<'_> {
         fmt.debug_struct("Xprs")
             .field("root", &self.root)
             // sets have no order of their own: always render the same text
-            .field("vars", &self.vars.iter().collect::<BTreeSet<_>>())
+            .field("vars", &SortedSet(&self.vars))
             .finish()
     }
 }
-- 
2.43.0

