From eff37b0abe283e662616d6d120292480db91ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 01/25] fix: report duplicated identifiers in source order

---
 crates/syntax/src/semantics.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/semantics.rs b/crates/syntax/src/semantics.rs
index 933f501..8761f4e 100644
--- a/crates/syntax/src/semantics.rs
+++ b/crates/syntax/src/semantics.rs
@@ -133,8 +133,12 @@ impl<'t> SemanticAnalyzer<'t> {
         // be stored in `self.errors`.
         .unwrap();
 
-        // Check for duplicate conditions.
-        for spans in self.identifiers.clone().into_values() {
+        // Check for duplicate conditions. The map has no stable iteration
+        // order, so we report them in source order.
+        let mut identifiers: Vec<_> =
+            self.identifiers.clone().into_values().collect();
+        identifiers.sort_by_key(|spans| spans[0].start.offset);
+        for spans in identifiers {
             if spans.len() > 1 {
                 self.error(
                     // FIXME: This is a patch until we start storing locations
-- 
2.43.0


From 1e3d7d205997baea501136695b94c9210a231ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 02/25] fix: recognise semantic errors of the tree in bulloak
 check

---
 crates/foundry/src/check/violation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index f132294..57cb0b9 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -126,7 +126,9 @@ fn format_frontend_error(error: &anyhow::Error) -> String {
         error.downcast_ref::<crate::hir::combiner::Error>()
     {
         format!("an error occurred while parsing the tree: {}", error.kind())
-    } else if error.downcast_ref::<bulloak_syntax::semantics::Error>().is_some()
+    } else if error
+        .downcast_ref::<bulloak_syntax::semantics::Errors>()
+        .is_some()
     {
         "at least one semantic error occurred while parsing the tree".to_owned()
     } else {
-- 
2.43.0


From cf874ec6d7b7f1ad10e89ef296a7b2510652d642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 03/25] fix: compare byte offsets with byte offsets when
 locating violations

---
 crates/foundry/src/check/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/utils.rs b/crates/foundry/src/check/utils.rs
index 9e43487..0747a2f 100644
--- a/crates/foundry/src/check/utils.rs
+++ b/crates/foundry/src/check/utils.rs
@@ -6,7 +6,7 @@ pub fn offset_to_line_column(content: &str, start: usize) -> (usize, usize) {
 
     // first line is `1`
     let mut line_counter = 1;
-    for (offset, c) in content.chars().enumerate() {
+    for (offset, c) in content.char_indices() {
         if c == '\n' {
             line_counter += 1;
         }
-- 
2.43.0


From fa3c6d17bd0f6f5864a33e33ba55baaff8230a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 04/25] fix: sanitize the function name of a root before
 prefixing tests with it

---
 crates/foundry/src/hir/combiner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 37ecd0d..8228d9b 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -2,7 +2,10 @@
 //! combiner.
 use std::{collections::HashSet, fmt, mem, result};
 
-use bulloak_syntax::{utils::upper_first_letter, FrontendError, Span};
+use bulloak_syntax::{
+    utils::{sanitize, upper_first_letter},
+    FrontendError, Span,
+};
 use thiserror::Error;
 
 use super::{ContractDefinition, Hir, Root};
@@ -232,7 +235,7 @@ fn update_children(
 
 /// Prefix the suffix of a test name.
 fn prefix_test_with(test_name: &str, prefix: &str) -> String {
-    let capitalized_fn_name = upper_first_letter(prefix);
+    let capitalized_fn_name = upper_first_letter(&sanitize(prefix));
     let test_suffix = test_name.trim_start_matches("test_");
     format!("test_{capitalized_fn_name}{test_suffix}")
 }
-- 
2.43.0


From 7b0e2634b07431cbfbe367b66b983cb3ca06b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 05/25] fix: report a file with only comments as an empty tree

---
 crates/syntax/src/splitter.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/syntax/src/splitter.rs b/crates/syntax/src/splitter.rs
index 1c89309..fca8969 100644
--- a/crates/syntax/src/splitter.rs
+++ b/crates/syntax/src/splitter.rs
@@ -5,20 +5,22 @@ pub(crate) const TREES_SEPARATOR: &str = "\n\n";
 /// Splits the input text into distinct trees, delimited by two consecutive
 /// newlines.
 pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
-    if text.trim().is_empty() {
+    if is_only_comments(text) {
         return Box::new(std::iter::once(""));
     }
 
     let trees = text.split(TREES_SEPARATOR).map(str::trim);
     let non_empty_trees = trees.filter(|s| !s.is_empty());
-    let no_isolated_comments = non_empty_trees.filter(not_only_comments);
+    let no_isolated_comments =
+        non_empty_trees.filter(|tree| !is_only_comments(tree));
 
     Box::new(no_isolated_comments)
 }
 
-/// Return whether the given string only contains lines starting with `//`.
-fn not_only_comments(tree: &&str) -> bool {
-    !tree.lines().all(|l| l.trim().starts_with("//"))
+/// Return whether the given string only contains blank lines and lines starting
+/// with `//`.
+fn is_only_comments(tree: &str) -> bool {
+    tree.lines().map(str::trim).all(|l| l.is_empty() || l.starts_with("//"))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4a09c8bc9e8134d4a6e0b0e7a6eb24f005642bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 06/25] fix: split the trees of a file with CRLF line endings

---
 crates/syntax/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/lib.rs b/crates/syntax/src/lib.rs
index 42a95c1..e18951d 100644
--- a/crates/syntax/src/lib.rs
+++ b/crates/syntax/src/lib.rs
@@ -22,7 +22,9 @@ pub use visitor::Visitor;
 
 /// Parses a string containing trees into ASTs.
 pub fn parse(text: &str) -> anyhow::Result<Vec<ast::Ast>> {
-    splitter::split_trees(text).map(parse_one).collect()
+    // Trees are separated by an empty line, whatever its line ending is.
+    let text = text.replace("\r\n", "\n");
+    splitter::split_trees(&text).map(parse_one).collect()
 }
 
 /// Parses a string containing a single tree into an AST.
-- 
2.43.0


From f4eb704c64b06a49b4181f43a51200a6ab22a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 07/25] fix: locate errors relative to the file and not to one
 of its trees

---
 crates/syntax/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/lib.rs b/crates/syntax/src/lib.rs
index e18951d..4816554 100644
--- a/crates/syntax/src/lib.rs
+++ b/crates/syntax/src/lib.rs
@@ -24,7 +24,21 @@ pub use visitor::Visitor;
 pub fn parse(text: &str) -> anyhow::Result<Vec<ast::Ast>> {
     // Trees are separated by an empty line, whatever its line ending is.
     let text = text.replace("\r\n", "\n");
-    splitter::split_trees(&text).map(parse_one).collect()
+    splitter::split_trees(&text)
+        .map(|tree| parse_one(&keep_position(&text, tree)))
+        .collect()
+}
+
+/// Blanks out everything that precedes `tree` in `text`, so that the locations
+/// in `tree` are locations in `text`. Note that `tree` is a slice of `text`.
+fn keep_position(text: &str, tree: &str) -> String {
+    if tree.is_empty() {
+        return String::new();
+    }
+
+    let start = tree.as_ptr() as usize - text.as_ptr() as usize;
+    let blank = |c| if c == '\n' { c } else { ' ' };
+    text[..start].chars().map(blank).chain(tree.chars()).collect()
 }
 
 /// Parses a string containing a single tree into an AST.
-- 
2.43.0


From 1eb26631fbe78d55a717591270359528af533b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 08/25] fix: report two tests with the same name instead of
 dropping or emitting them

---
 crates/foundry/src/hir/combiner.rs | 32 ++++++++++++++++++++++++++++++
 crates/foundry/src/hir/mod.rs      | 13 +++++++-----
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 8228d9b..c4f4dc3 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -74,6 +74,10 @@ pub enum ErrorKind {
     /// one of the tree roots.
     #[error("separator missing at tree root #{0}. Expected to find `::` between the contract name and the function name when multiple roots exist")]
     SeparatorMissing(Index),
+
+    /// Two branches of the trees result in a test with the same name.
+    #[error("found the test '{0}' more than once")]
+    TestDuplicated(Identifier),
 }
 
 /// A high-level intermediate representation (HIR) combiner.
@@ -108,6 +112,30 @@ impl Combiner {
     }
 }
 
+/// Checks that there is at most one test with a given name in a HIR, since two
+/// of them can't be told apart in a Solidity contract.
+pub(crate) fn check_unique_tests(text: &str, hir: &Hir) -> Result<()> {
+    let Some(contract) = hir.find_contract() else {
+        return Ok(());
+    };
+
+    let mut unique_tests = HashSet::new();
+    for child in &contract.children {
+        let Hir::FunctionDefinition(test) = child else {
+            continue;
+        };
+
+        if test.is_function() && !unique_tests.insert(&test.identifier) {
+            return Err(CombinerI::new(text).error(
+                test.span.with_end(test.span.start),
+                ErrorKind::TestDuplicated(test.identifier.clone()),
+            ));
+        }
+    }
+
+    Ok(())
+}
+
 struct CombinerI<'t> {
     /// The input text.
     text: &'t str,
@@ -251,6 +279,10 @@ fn collect_modifier(
     // If child is of type `FunctionDefinition` with the same identifier
     // as a child of another `ContractDefinition` of ty `Modifier`, then
     // they are duplicates.
+    if !test_or_modifier.is_modifier() {
+        return Some(Hir::FunctionDefinition(test_or_modifier));
+    }
+
     if unique_modifiers.contains(&test_or_modifier.identifier) {
         return None;
     }
diff --git a/crates/foundry/src/hir/mod.rs b/crates/foundry/src/hir/mod.rs
index d02c3b5..c48dd13 100644
--- a/crates/foundry/src/hir/mod.rs
+++ b/crates/foundry/src/hir/mod.rs
@@ -26,12 +26,15 @@ use crate::{config::Config, scaffold::modifiers::ModifierDiscoverer};
 pub fn translate(text: &str, cfg: &Config) -> anyhow::Result<Hir> {
     let asts = bulloak_syntax::parse(text)?;
 
-    if asts.len() == 1 {
-        return Ok(translate_one(&asts[0], cfg));
-    }
+    let hir = if asts.len() == 1 {
+        translate_one(&asts[0], cfg)
+    } else {
+        let hirs = asts.into_iter().map(|ast| translate_one(&ast, cfg));
+        combiner::Combiner::new().combine(text, hirs)?
+    };
+    combiner::check_unique_tests(text, &hir)?;
 
-    let hirs = asts.into_iter().map(|ast| translate_one(&ast, cfg));
-    Ok(combiner::Combiner::new().combine(text, hirs)?)
+    Ok(hir)
 }
 
 /// Generates the HIR for a single AST.
-- 
2.43.0


From 8b5377d485766e24bc363e958abbe4d157312458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 09/25] fix: report a contract name that is not a Solidity
 identifier instead of panicking

---
 crates/foundry/src/hir/combiner.rs | 21 +++++++++++++++++++++
 crates/foundry/src/hir/mod.rs      |  1 +
 2 files changed, 22 insertions(+)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index c4f4dc3..5e1154a 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -75,6 +75,10 @@ pub enum ErrorKind {
     #[error("separator missing at tree root #{0}. Expected to find `::` between the contract name and the function name when multiple roots exist")]
     SeparatorMissing(Index),
 
+    /// The contract can't be named like this in Solidity.
+    #[error("invalid contract name: '{0}'")]
+    ContractNameInvalid(Identifier),
+
     /// Two branches of the trees result in a test with the same name.
     #[error("found the test '{0}' more than once")]
     TestDuplicated(Identifier),
@@ -112,6 +116,23 @@ impl Combiner {
     }
 }
 
+/// Checks that the name of the contract in a HIR is an identifier in Solidity.
+pub(crate) fn check_contract_name(text: &str, hir: &Hir) -> Result<()> {
+    let Some(contract) = hir.find_contract() else {
+        return Ok(());
+    };
+
+    let name = sanitize(&contract.identifier);
+    if forge_fmt::parse(&format!("contract {name} {{}}")).is_err() {
+        return Err(CombinerI::new(text).error(
+            Span::default(),
+            ErrorKind::ContractNameInvalid(contract.identifier.clone()),
+        ));
+    }
+
+    Ok(())
+}
+
 /// Checks that there is at most one test with a given name in a HIR, since two
 /// of them can't be told apart in a Solidity contract.
 pub(crate) fn check_unique_tests(text: &str, hir: &Hir) -> Result<()> {
diff --git a/crates/foundry/src/hir/mod.rs b/crates/foundry/src/hir/mod.rs
index c48dd13..f2c5c1e 100644
--- a/crates/foundry/src/hir/mod.rs
+++ b/crates/foundry/src/hir/mod.rs
@@ -32,6 +32,7 @@ pub fn translate(text: &str, cfg: &Config) -> anyhow::Result<Hir> {
         let hirs = asts.into_iter().map(|ast| translate_one(&ast, cfg));
         combiner::Combiner::new().combine(text, hirs)?
     };
+    combiner::check_contract_name(text, &hir)?;
     combiner::check_unique_tests(text, &hir)?;
 
     Ok(hir)
-- 
2.43.0


From 1f12a60efe74f5bfe772bc0056667f8f25891509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 10/25] fix: report solidity code that can't be formatted
 instead of panicking

---
 crates/foundry/src/scaffold/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/scaffold/mod.rs b/crates/foundry/src/scaffold/mod.rs
index 748ab52..9139fc0 100644
--- a/crates/foundry/src/scaffold/mod.rs
+++ b/crates/foundry/src/scaffold/mod.rs
@@ -18,8 +18,9 @@ pub fn scaffold(text: &str, cfg: &Config) -> anyhow::Result<String> {
     let hir = translate(text, cfg)?;
     let pt = sol::Translator::new(cfg).translate(&hir);
     let source = sol::Formatter::new().emit(pt);
-    let formatted =
-        fmt(&source).expect("should format the emitted solidity code");
+    let formatted = fmt(&source).map_err(|err| {
+        anyhow::anyhow!("couldn't format the emitted solidity code: {err}")
+    })?;
 
     Ok(formatted)
 }
-- 
2.43.0


From 554a315fc9fdfcddc2b447d90148c952c1853f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 11/25] fix: rename only the contract whose name doesn't match
 the tree

---
 crates/foundry/src/check/violation.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 57cb0b9..2807567 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -183,11 +183,15 @@ impl ViolationKind {
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
             }
-            ViolationKind::ContractNameNotMatches(new_name, old_name) => {
-                let source = ctx.src.replace(
-                    &format!("contract {old_name}"),
-                    &format!("contract {new_name}"),
-                );
+            ViolationKind::ContractNameNotMatches(new_name, _) => {
+                let Some(old_name) =
+                    find_contract(&ctx.pt).and_then(|contract| contract.name)
+                else {
+                    return ctx;
+                };
+
+                let mut source = ctx.src.clone();
+                source.replace_range(old_name.loc.range(), new_name);
                 let parsed =
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
-- 
2.43.0


From d0ecbd4fc1e0654301819975117c057fa6bc8d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 12/25] fix: insert a missing function when the previous one is
 missing too

---
 crates/foundry/src/check/violation.rs | 29 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 2807567..96f79de 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -244,20 +244,21 @@ fn get_insertion_offset(
     index: usize,
     src: impl AsRef<str>,
 ) -> usize {
-    if index == 0 {
-        return find_contract_body_start(contract_sol, src.as_ref());
-    }
-
-    match &contract_hir.children[index - 1] {
-        Hir::FunctionDefinition(prev_fn_hir) => {
-            find_matching_fn(contract_sol, prev_fn_hir)
-                .expect("matching function should exist")
-                .1
-                .loc()
-                .end()
-        }
-        _ => unreachable!("previous child should be a function definition"),
-    }
+    // The closest previous function might not be in the contract, e.g. when
+    // modifiers are skipped.
+    contract_hir.children[..index]
+        .iter()
+        .rev()
+        .find_map(|child| match child {
+            Hir::FunctionDefinition(prev_fn_hir) => {
+                find_matching_fn(contract_sol, prev_fn_hir)
+            }
+            _ => unreachable!("previous child should be a function definition"),
+        })
+        .map_or_else(
+            || find_contract_body_start(contract_sol, src.as_ref()),
+            |(_, prev_fn_sol)| prev_fn_sol.loc().end(),
+        )
 }
 
 /// Finds the starting position of a contract's body in the source code.
-- 
2.43.0


From 60bc7c790812853227834bc1a7589594f5f0a728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 13/25] fix: keep the source when adding a missing contract

---
 crates/foundry/src/check/violation.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 96f79de..8f208ff 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -17,6 +17,7 @@ use super::{context::Context, location::Location};
 use crate::{
     config::Config,
     hir::{self, Hir},
+    scaffold::emitter::Emitter,
     sol::{self, find_contract, find_matching_fn},
 };
 
@@ -178,7 +179,16 @@ impl ViolationKind {
             ViolationKind::ContractMissing(_) => {
                 let pt = sol::Translator::new(&Config::default())
                     .translate(&ctx.hir);
-                let source = sol::Formatter::new().emit(pt.clone());
+                let mut source = sol::Formatter::new().emit(pt.clone());
+                // Keep whatever the file already has.
+                if !ctx.src.trim().is_empty() {
+                    let Some(contract) = ctx.hir.find_contract() else {
+                        return ctx;
+                    };
+                    let contract = Hir::ContractDefinition(contract.clone());
+                    let contract = Emitter::new(&ctx.cfg).emit(&contract);
+                    source = format!("{}\n\n{contract}", ctx.src.trim_end());
+                }
                 let parsed =
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
-- 
2.43.0


From 3f60427e42f7c71605f0a1d271c607254f4abec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 14/25] fix: sort the functions of a contract without losing or
 duplicating any of them

---
 crates/bulloak/src/check.rs           |  1 -
 crates/foundry/src/check/violation.rs | 75 +++++++--------------------
 2 files changed, 19 insertions(+), 57 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 5b736ad..c3947f2 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -98,7 +98,6 @@ impl Check {
                             ctx.hir.clone().find_contract()
                         {
                             ctx = fix_order(
-                                &violations,
                                 &contract_sol,
                                 contract_hir,
                                 ctx,
diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 8f208ff..654f8c3 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -1,5 +1,5 @@
 //! Defines a rule-checking error object.
-use std::{borrow::Cow, collections::HashSet, fmt};
+use std::{borrow::Cow, fmt};
 
 use bulloak_syntax::FrontendError;
 use forge_fmt::{
@@ -7,10 +7,7 @@ use forge_fmt::{
     solang_ext::{CodeLocationExt, SafeUnwrap},
 };
 use owo_colors::OwoColorize;
-use solang_parser::{
-    pt,
-    pt::{ContractDefinition, ContractPart},
-};
+use solang_parser::{pt, pt::ContractDefinition};
 use thiserror::Error;
 
 use super::{context::Context, location::Location};
@@ -295,21 +292,16 @@ fn find_contract_body_start(
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
 ///
 /// The algorithm goes like this:
-/// 1. It first creates a set of function names present in `contract_hir` to
-///    identify the functions that need to be sorted.
-/// 2. It then iterates over the `violations` to correct the order of functions
-///    in `contract_sol`, matching them with `contract_hir`.
-/// 3. Functions not part of `contract_hir` are removed, as their correct
-///    position is unknown.
-/// 4. The sorted functions are then compiled into a string (`source`) and
+/// 1. It first finds the functions of `contract_sol` that are present in
+///    `contract_hir`, in the order of `contract_hir`.
+/// 2. The sorted functions are then compiled into a string (`source`) and
 ///    simultaneously removed from a temporary string (`scratch`) that mirrors
 ///    the original source code.
-/// 5. Finally, the function reconstructs the contract's body by combining the
+/// 3. Finally, the function reconstructs the contract's body by combining the
 ///    sorted functions and any remaining parts of the contract (preserved in
 ///    `scratch`), ensuring all components are included in the output.
 ///
 /// # Arguments
-/// * `violations` - Order discrepancies between Solidity and HIR
 /// * `contract_sol` - Solidity contract to be corrected
 /// * `contract_hir` - HIR contract with correct function order
 /// * `ctx` - Current context with source code and processing data
@@ -321,70 +313,41 @@ fn find_contract_body_start(
 /// If the reconstructed Solidity string fails to parse
 #[must_use]
 pub fn fix_order(
-    violations: &[Violation],
     contract_sol: &Box<ContractDefinition>,
     contract_hir: &hir::ContractDefinition,
     ctx: Context,
 ) -> Context {
-    // 1. Create a set containing the functions that appear in the tree.
+    // 1. Find the functions that appear in the tree, in the order of the tree.
     //
-    // These are the functions that we know how to sort.
-    let fn_names: HashSet<String> = contract_hir
+    // These are the functions that we know how to sort, since we don't know
+    // where the rest of them go.
+    let fns: Vec<&pt::FunctionDefinition> = contract_hir
         .children
         .iter()
-        .filter_map(|child| {
-            if let hir::Hir::FunctionDefinition(f) = &child {
-                Some(f.identifier.clone())
-            } else {
-                None
-            }
-        })
-        .collect();
-
-    // 2. Properly sort functions in a new vec.
-    let mut fns = contract_sol.parts.clone();
-    for violation in violations {
-        if let ViolationKind::FunctionOrderMismatch(f, sol_idx, hir_idx) =
-            &violation.kind
-        {
-            fns.remove(*sol_idx);
-            fns.insert(
-                *hir_idx,
-                ContractPart::FunctionDefinition(Box::new(f.clone())),
-            );
-        }
-    }
-
-    // 3. Remove functions that are not part of the hir since
-    // we don't know where they go.
-    let fns: Vec<&ContractPart> = fns
-        .iter()
-        .filter(|f| {
-            if let ContractPart::FunctionDefinition(f) = f {
-                fn_names.contains(&f.name.safe_unwrap().name)
-            } else {
-                false
-            }
+        .filter_map(|child| match child {
+            Hir::FunctionDefinition(f) => find_matching_fn(contract_sol, f),
+            _ => None,
         })
+        .map(|(_, fn_sol)| fn_sol)
         .collect();
 
-    // 4. a - Add the functions that appear in the tree to the blank
+    // 2. a - Add the functions that appear in the tree to the blank
     // string `source`.
     //    b - Replace them with whitespace in `scratch`.
     //
     // Since we sorted in a previous step, they'll appear sorted in
-    // the string. We do 4.b because we want to append the remaining
+    // the string. We do 2.b because we want to append the remaining
     // functions after the sorted functions.
     let mut scratch = ctx.src.clone();
     let mut source = Vec::with_capacity(fns.len());
     for f in &fns {
         let loc = f.loc();
-        let f = ctx.src[loc.start()..loc.end()].to_owned();
-        scratch = scratch.replace(&f, " ".repeat(f.len()).as_str());
+        let f = ctx.src[loc.range()].to_owned();
+        scratch.replace_range(loc.range(), &" ".repeat(f.len()));
         source.push(f);
     }
 
-    // 5. Replace the contract's body with the sorted functions and
+    // 3. Replace the contract's body with the sorted functions and
     // the extra functions contained in the scratch string.
     // We know there is at least two parts because we found order violations.
     let first_part_loc = contract_sol.parts[0].loc();
-- 
2.43.0


From 014a05e912ff3dc6cac597460b3ab7cefa35031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 15/25] fix: report the files bulloak check --fix could not
 process

---
 crates/bulloak/src/check.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index c3947f2..5842cf7 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -121,6 +121,11 @@ impl Check {
                 fixed_count,
                 issue_literal
             );
+
+            // We can't fix what we couldn't read.
+            if !violations.is_empty() {
+                exit(&violations);
+            }
         } else {
             for ctx in ctxs {
                 violations.append(&mut rules::StructuralMatcher::check(&ctx));
-- 
2.43.0


From 38b0a70b1d4bee85cd2bb7b7207558b475f81651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 16/25] fix: exit with an error when a Solidity file can't be
 written

---
 crates/bulloak/src/check.rs    | 19 +++++++++++++++----
 crates/bulloak/src/scaffold.rs | 12 ++++++------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 5842cf7..3afc42b 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -65,6 +65,7 @@ impl Check {
 
         if self.fix {
             let mut fixed_count = 0;
+            let mut is_written = true;
             for mut ctx in ctxs {
                 let violations = rules::StructuralMatcher::check(&ctx);
                 let fixable_count =
@@ -109,9 +110,11 @@ impl Check {
                 let sol = ctx.sol.clone();
                 let formatted =
                     ctx.fmt().expect("should format the emitted solidity code");
-                self.write(&formatted, sol);
-
-                fixed_count += fixable_count;
+                if self.write(&formatted, sol) {
+                    fixed_count += fixable_count;
+                } else {
+                    is_written = false;
+                }
             }
 
             let issue_literal = pluralize(fixed_count, "issue", "issues");
@@ -126,6 +129,9 @@ impl Check {
             if !violations.is_empty() {
                 exit(&violations);
             }
+            if !is_written {
+                std::process::exit(1);
+            }
         } else {
             for ctx in ctxs {
                 violations.append(&mut rules::StructuralMatcher::check(&ctx));
@@ -139,14 +145,19 @@ impl Check {
     ///
     /// If the `--stdout` flag was passed, then the output is printed to
     /// stdout, else it is written to the corresponding file.
-    fn write(&self, output: &str, sol: PathBuf) {
+    ///
+    /// Returns whether the output could be written.
+    fn write(&self, output: &str, sol: PathBuf) -> bool {
         if self.stdout {
             println!("{} {}", "-->".blue(), sol.to_string_lossy());
             println!("{}", output.trim());
             println!("{}", "<--".blue());
         } else if let Err(e) = fs::write(sol, output) {
             eprintln!("{}: {e}", "warn".yellow());
+            return false;
         }
+
+        true
     }
 }
 
diff --git a/crates/bulloak/src/scaffold.rs b/crates/bulloak/src/scaffold.rs
index 89ade96..812befa 100644
--- a/crates/bulloak/src/scaffold.rs
+++ b/crates/bulloak/src/scaffold.rs
@@ -96,7 +96,7 @@ impl Scaffold {
 
         if self.write_files {
             let file = file.with_extension("t.sol");
-            self.write_file(&formatted, &file);
+            self.write_file(&formatted, &file)?;
         } else {
             println!("{formatted}");
         }
@@ -108,7 +108,7 @@ impl Scaffold {
     ///
     /// If the file doesn't exist it will create it. If it exists,
     /// and `--force-write` was not passed, it will skip writing to the file.
-    fn write_file(&self, text: &str, file: &PathBuf) {
+    fn write_file(&self, text: &str, file: &PathBuf) -> anyhow::Result<()> {
         // Don't overwrite files unless `--force-write` was passed.
         if file.exists() && !self.force_write {
             eprintln!(
@@ -120,12 +120,12 @@ impl Scaffold {
                 "    {} The corresponding `.t.sol` file already exists",
                 "=".blue()
             );
-            return;
+            return Ok(());
         }
 
-        if let Err(err) = fs::write(file, text) {
-            eprintln!("{}: {err}", "error".red());
-        };
+        fs::write(file, text)?;
+
+        Ok(())
     }
 
     /// Reports errors that occurred during file processing.
-- 
2.43.0


From e02c32111f8d947db104f1da94163b3987d6df00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 17/25] fix: find the body of a contract whose header has other
 braces

---
 crates/foundry/src/check/violation.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 654f8c3..5e47903 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -281,12 +281,22 @@ fn find_contract_body_start(
     contract_sol: &pt::ContractDefinition,
     src: &str,
 ) -> usize {
-    let contract_start = contract_sol.loc.start();
-    let opening_brace_pos = src[contract_start..]
-        .find('{')
-        .expect("contract should have an opening brace");
-
-    contract_start + opening_brace_pos + 1
+    // Braces in the arguments of a base contract or in a comment don't count.
+    let bases_end = contract_sol.base.last().map(|base| base.loc.end());
+    let mut offset = bases_end.unwrap_or_else(|| contract_sol.loc.start());
+    loop {
+        let rest = &src[offset..];
+        let skipped = if rest.starts_with('{') {
+            return offset + 1;
+        } else if rest.starts_with("//") {
+            rest.find('\n')
+        } else if rest.starts_with("/*") {
+            rest[2..].find("*/").map(|end| end + 4)
+        } else {
+            rest.chars().next().map(char::len_utf8)
+        };
+        offset += skipped.expect("contract should have an opening brace");
+    }
 }
 
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
-- 
2.43.0


From 377efbc05abb51954965a115676755f9fbfa9367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 18/25] fix: move and follow functions without a body including
 their semicolon

---
 crates/foundry/src/check/violation.rs | 39 ++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 5e47903..7b41566 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -264,10 +264,22 @@ fn get_insertion_offset(
         })
         .map_or_else(
             || find_contract_body_start(contract_sol, src.as_ref()),
-            |(_, prev_fn_sol)| prev_fn_sol.loc().end(),
+            |(_, prev_fn_sol)| find_fn_end(prev_fn_sol, src.as_ref()),
         )
 }
 
+/// Finds the position right after a function definition in the source code.
+///
+/// The location of a function without a body doesn't include its semicolon.
+fn find_fn_end(fn_sol: &pt::FunctionDefinition, src: &str) -> usize {
+    let end = fn_sol.loc().end();
+    if fn_sol.body.is_some() {
+        end
+    } else {
+        find_past(src, end, ';')
+    }
+}
+
 /// Finds the starting position of a contract's body in the source code.
 ///
 /// # Arguments
@@ -281,13 +293,22 @@ fn find_contract_body_start(
     contract_sol: &pt::ContractDefinition,
     src: &str,
 ) -> usize {
-    // Braces in the arguments of a base contract or in a comment don't count.
+    // Braces in the arguments of a base contract don't count.
     let bases_end = contract_sol.base.last().map(|base| base.loc.end());
-    let mut offset = bases_end.unwrap_or_else(|| contract_sol.loc.start());
+    let offset = bases_end.unwrap_or_else(|| contract_sol.loc.start());
+    find_past(src, offset, '{')
+}
+
+/// Finds the position right after the first `delimiter` that isn't part of a
+/// comment.
+///
+/// # Panics
+/// If there is no such delimiter after `offset`
+fn find_past(src: &str, mut offset: usize, delimiter: char) -> usize {
     loop {
         let rest = &src[offset..];
-        let skipped = if rest.starts_with('{') {
-            return offset + 1;
+        let skipped = if rest.starts_with(delimiter) {
+            return offset + delimiter.len_utf8();
         } else if rest.starts_with("//") {
             rest.find('\n')
         } else if rest.starts_with("/*") {
@@ -295,7 +316,7 @@ fn find_contract_body_start(
         } else {
             rest.chars().next().map(char::len_utf8)
         };
-        offset += skipped.expect("contract should have an opening brace");
+        offset += skipped.expect("delimiter should be in the source");
     }
 }
 
@@ -351,9 +372,9 @@ pub fn fix_order(
     let mut scratch = ctx.src.clone();
     let mut source = Vec::with_capacity(fns.len());
     for f in &fns {
-        let loc = f.loc();
-        let f = ctx.src[loc.range()].to_owned();
-        scratch.replace_range(loc.range(), &" ".repeat(f.len()));
+        let range = f.loc().start()..find_fn_end(f, &ctx.src);
+        let f = ctx.src[range.clone()].to_owned();
+        scratch.replace_range(range, &" ".repeat(f.len()));
         source.push(f);
     }
 
-- 
2.43.0


From 249a149f40a68737654b07b7db6030ff4c54049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 19/25] fix: derive the tree of a violation from the suffix of
 its path only

---
 crates/foundry/src/check/violation.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 7b41566..04d6521 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -94,9 +94,13 @@ impl fmt::Display for Violation {
             writeln!(f, "     {} help: {}", "=".blue(), help_text)?;
         }
         if self.kind.is_fixable() {
-            let file = self.location.file().replace(".t.sol", ".tree");
+            let file = self.location.file();
+            let tree = file.strip_suffix(".t.sol").map_or_else(
+                || file.to_owned(),
+                |name| format!("{name}.tree"),
+            );
             write!(f, "     {} fix: run ", "+".blue())?;
-            writeln!(f, "`bulloak check --fix {file}`")?;
+            writeln!(f, "`bulloak check --fix {tree}`")?;
         }
         writeln!(f, "   {} {}", "-->".blue(), self.location)?;
 
@@ -158,7 +162,6 @@ impl ViolationKind {
                 format!(r#"consider renaming the contract to "{name}""#).into()
             }
             ViolationKind::SolidityFileMissing(filename) => {
-                let filename = filename.replace(".t.sol", ".tree");
                 format!("consider running `bulloak scaffold {filename}`").into()
             }
             ViolationKind::FunctionOrderMismatch(_, _, _) => {
-- 
2.43.0


From be752a830fdef78eba85d9e4df958a2d17446f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 20/25] fix: don't take the text of a tree as formatter
 directives

---
 crates/bulloak/src/scaffold.rs     |  8 +++++---
 crates/foundry/src/scaffold/mod.rs | 19 +++++++++++++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/crates/bulloak/src/scaffold.rs b/crates/bulloak/src/scaffold.rs
index 812befa..a08ffae 100644
--- a/crates/bulloak/src/scaffold.rs
+++ b/crates/bulloak/src/scaffold.rs
@@ -7,9 +7,11 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use bulloak_foundry::{constants::DEFAULT_SOL_VERSION, scaffold::scaffold};
+use bulloak_foundry::{
+    constants::DEFAULT_SOL_VERSION,
+    scaffold::{format, scaffold},
+};
 use clap::Parser;
-use forge_fmt::fmt;
 use owo_colors::OwoColorize;
 use serde::{Deserialize, Serialize};
 
@@ -89,7 +91,7 @@ impl Scaffold {
     fn process_file(&self, file: &Path, cfg: &Cli) -> anyhow::Result<()> {
         let text = fs::read_to_string(file)?;
         let emitted = scaffold(&text, &cfg.into())?;
-        let formatted = fmt(&emitted).unwrap_or_else(|err| {
+        let formatted = format(&emitted).unwrap_or_else(|err| {
             eprintln!("{}: {}", "WARN".yellow(), err);
             emitted
         });
diff --git a/crates/foundry/src/scaffold/mod.rs b/crates/foundry/src/scaffold/mod.rs
index 9139fc0..03ee169 100644
--- a/crates/foundry/src/scaffold/mod.rs
+++ b/crates/foundry/src/scaffold/mod.rs
@@ -2,7 +2,7 @@
 //!
 //! This command scaffolds a Solidity file from a spec `.tree` file.
 
-use forge_fmt::fmt;
+use forge_fmt::{FormatterConfig, FormatterError, InlineConfig, Parsed};
 
 use crate::{config::Config, hir::translate, sol};
 
@@ -18,9 +18,24 @@ pub fn scaffold(text: &str, cfg: &Config) -> anyhow::Result<String> {
     let hir = translate(text, cfg)?;
     let pt = sol::Translator::new(cfg).translate(&hir);
     let source = sol::Formatter::new().emit(pt);
-    let formatted = fmt(&source).map_err(|err| {
+    let formatted = format(&source).map_err(|err| {
         anyhow::anyhow!("couldn't format the emitted solidity code: {err}")
     })?;
 
     Ok(formatted)
 }
+
+/// Formats the emitted Solidity code.
+///
+/// The comments of the emitted code are the text of the tree, so they are never
+/// taken as `forgefmt` directives.
+pub fn format(source: &str) -> Result<String, FormatterError> {
+    let parsed = Parsed {
+        inline_config: InlineConfig::default(),
+        ..forge_fmt::parse(source).map_err(|_| FormatterError::Fmt(std::fmt::Error))?
+    };
+    let mut formatted = String::new();
+    forge_fmt::format(&mut formatted, parsed, FormatterConfig::default())?;
+
+    Ok(formatted)
+}
-- 
2.43.0


From fedafed0f7f6f88f7e37188b12cd9dddf31091fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 21/25] fix: insert a missing function after the comment that
 follows the previous one

---
 crates/foundry/src/check/violation.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 04d6521..2e31829 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -267,10 +267,27 @@ fn get_insertion_offset(
         })
         .map_or_else(
             || find_contract_body_start(contract_sol, src.as_ref()),
-            |(_, prev_fn_sol)| find_fn_end(prev_fn_sol, src.as_ref()),
+            |(_, prev_fn_sol)| {
+                let end = find_fn_end(prev_fn_sol, src.as_ref());
+                skip_trailing_comment(src.as_ref(), end)
+            },
         )
 }
 
+/// Skips the comment that follows `offset` in the same line, if any.
+fn skip_trailing_comment(src: &str, offset: usize) -> usize {
+    let rest = &src[offset..];
+    let comment = rest.trim_start_matches([' ', '\t']);
+    let end = if comment.starts_with("//") {
+        comment.find(['\n', '\r']).unwrap_or(comment.len())
+    } else if comment.starts_with("/*") {
+        comment[2..].find("*/").map_or(comment.len(), |end| end + 4)
+    } else {
+        return offset;
+    };
+    offset + rest.len() - comment.len() + end
+}
+
 /// Finds the position right after a function definition in the source code.
 ///
 /// The location of a function without a body doesn't include its semicolon.
-- 
2.43.0


From 47b47641796e3755f211353fde613a9c89aaa248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 22/25] fix: format a repaired file until the formatter has
 nothing more to change

---
 crates/foundry/src/check/context.rs | 47 +++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/crates/foundry/src/check/context.rs b/crates/foundry/src/check/context.rs
index 88ff852..e3874a8 100644
--- a/crates/foundry/src/check/context.rs
+++ b/crates/foundry/src/check/context.rs
@@ -89,19 +89,21 @@ impl Context {
 
     /// Updates the context with a formatted representation of the Solidity
     /// file.
+    ///
+    /// The formatter might need more than one pass to settle where the comments
+    /// go.
     pub fn fmt(self) -> anyhow::Result<String, FormatterError> {
-        let mut formatted = String::new();
-        format(
-            &mut formatted,
-            forge_fmt::Parsed {
-                src: &self.src,
-                pt: self.pt,
-                comments: self.comments,
-                inline_config: InlineConfig::default(),
-                invalid_inline_config_items: Vec::default(),
-            },
-            FormatterConfig::default(),
-        )?;
+        const MAX_PASSES: usize = 4;
+
+        let mut formatted = fmt_once(&self.src, self.pt, self.comments)?;
+        for _ in 1..MAX_PASSES {
+            let Ok(parsed) = forge_fmt::parse(&formatted) else { break };
+            let again = fmt_once(&formatted, parsed.pt, parsed.comments)?;
+            if again == formatted {
+                break;
+            }
+            formatted = again;
+        }
 
         Ok(formatted)
     }
@@ -136,6 +138,27 @@ impl Context {
     }
 }
 
+fn fmt_once(
+    src: &str,
+    pt: SourceUnit,
+    comments: Comments,
+) -> anyhow::Result<String, FormatterError> {
+    let mut formatted = String::new();
+    format(
+        &mut formatted,
+        Parsed {
+            src,
+            pt,
+            comments,
+            inline_config: InlineConfig::default(),
+            invalid_inline_config_items: Vec::default(),
+        },
+        FormatterConfig::default(),
+    )?;
+
+    Ok(formatted)
+}
+
 fn get_path_with_ext(
     path: impl AsRef<Path>,
     ext: impl AsRef<OsStr>,
-- 
2.43.0


From 582320cfd97679d6394b112c552e7c8dae6c055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:58 +0000
Subject: [PATCH 23/25] fix: take only one `test_` off a test's name before
 prefixing it

A word like `'test_x` makes a test called `test_test_x`, which became
`test_Fnx` in a file of several trees, and clashed with the test of `x`.
---
 crates/foundry/src/hir/combiner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 5e1154a..f6ce6d0 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -285,7 +285,7 @@ fn update_children(
 /// Prefix the suffix of a test name.
 fn prefix_test_with(test_name: &str, prefix: &str) -> String {
     let capitalized_fn_name = upper_first_letter(&sanitize(prefix));
-    let test_suffix = test_name.trim_start_matches("test_");
+    let test_suffix = test_name.strip_prefix("test_").unwrap_or(test_name);
     format!("test_{capitalized_fn_name}{test_suffix}")
 }
 
-- 
2.43.0


From 6d2ca27766c8526d6a58c55e63da1681ff1eda0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:54 +0000
Subject: [PATCH 24/25] fix: keep the byte offsets of the locations in later
 trees

The lines before a tree were blanked out a character at a time, so that the
offsets of its locations didn't index the text they were parsed from.
---
 crates/syntax/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/syntax/src/lib.rs b/crates/syntax/src/lib.rs
index 4816554..079b610 100644
--- a/crates/syntax/src/lib.rs
+++ b/crates/syntax/src/lib.rs
@@ -29,16 +29,22 @@ pub fn parse(text: &str) -> anyhow::Result<Vec<ast::Ast>> {
         .collect()
 }
 
-/// Blanks out everything that precedes `tree` in `text`, so that the locations
-/// in `tree` are locations in `text`. Note that `tree` is a slice of `text`.
+/// Blanks out the lines that precede `tree` in `text`, so that the locations in
+/// `tree` are locations in `text`. Note that `tree` is a slice of `text`.
 fn keep_position(text: &str, tree: &str) -> String {
     if tree.is_empty() {
         return String::new();
     }
 
     let start = tree.as_ptr() as usize - text.as_ptr() as usize;
-    let blank = |c| if c == '\n' { c } else { ' ' };
-    text[..start].chars().map(blank).chain(tree.chars()).collect()
+    let line = text[..start].rfind('\n').map_or(0, |newline| newline + 1);
+    let lines_before = text[..line].bytes().map(|b| match b {
+        b'\n' => '\n',
+        _ => ' ',
+    });
+    // The tree might be preceded by white space on its line.
+    let indentation = text[line..start].chars().map(|_| ' ');
+    lines_before.chain(indentation).chain(tree.chars()).collect()
 }
 
 /// Parses a string containing a single tree into an AST.
-- 
2.43.0


From 207ec91b5985b6fe557ee122f796996674bf0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:30 +0000
Subject: [PATCH 25/25] fix: accept paths that are not UTF-8

---
 crates/bulloak/src/cli.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/bulloak/src/cli.rs b/crates/bulloak/src/cli.rs
index 4314db6..c78540a 100644
--- a/crates/bulloak/src/cli.rs
+++ b/crates/bulloak/src/cli.rs
@@ -1,6 +1,5 @@
 //! `bulloak`'s CLI config.
 use clap::{Parser, Subcommand};
-use figment::{providers::Serialized, Figment};
 use serde::{Deserialize, Serialize};
 
 /// `bulloak`'s configuration.
@@ -50,8 +49,8 @@ impl From<&Cli> for bulloak_foundry::config::Config {
 
 /// Main entrypoint of `bulloak`'s execution.
 pub(crate) fn run() -> anyhow::Result<()> {
-    let config: Cli =
-        Figment::new().merge(Serialized::defaults(Cli::parse())).extract()?;
+    // Paths that are not UTF-8 cannot be serialized, so don't.
+    let config = Cli::parse();
 
     match &config.command {
         Commands::Scaffold(command) => command.run(&config),
-- 
2.43.0

