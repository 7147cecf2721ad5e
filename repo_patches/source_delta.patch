From c51b58c1ce50d8c0e1961439037baf2a117b9160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 01/29] fix: compute check locations from byte offsets

The offset of a solidity construct is a byte offset, but it was compared
against a char index, which gave wrong lines or a panic on multi-byte text.
---
 crates/foundry/src/check/utils.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/crates/foundry/src/check/utils.rs b/crates/foundry/src/check/utils.rs
index 9e43487..07e2fda 100644
--- a/crates/foundry/src/check/utils.rs
+++ b/crates/foundry/src/check/utils.rs
@@ -2,20 +2,13 @@
 
 /// Converts the start offset of a `Loc` to `(line, col)`. Modified from <https://github.com/foundry-rs/foundry/blob/45b9dccdc8584fb5fbf55eb190a880d4e3b0753f/fmt/src/helpers.rs#L54-L70>
 pub fn offset_to_line_column(content: &str, start: usize) -> (usize, usize) {
-    debug_assert!(content.len() > start);
+    // `start` is a byte offset, so we can't count in chars.
+    let before = &content.as_bytes()[..start.min(content.len())];
+    let line_start =
+        before.iter().rposition(|&b| b == b'\n').map_or(0, |i| i + 1);
+    let line = before.iter().filter(|&&b| b == b'\n').count() + 1;
 
-    // first line is `1`
-    let mut line_counter = 1;
-    for (offset, c) in content.chars().enumerate() {
-        if c == '\n' {
-            line_counter += 1;
-        }
-        if offset > start {
-            return (line_counter, offset - start);
-        }
-    }
-
-    unreachable!("content.len() > start")
+    (line, before.len() - line_start + 1)
 }
 
 /// Returns the line where a byte offset is found.
-- 
2.43.0


From 9af8bffad191887c195cd04a28bb1824d5a0fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 02/29] fix: report semantic errors of a tree as tree errors in
 check

The analyzer returns Errors, not Error, so check blamed the solidity file.
---
 crates/foundry/src/check/violation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index f132294..916f769 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -126,7 +126,7 @@ fn format_frontend_error(error: &anyhow::Error) -> String {
         error.downcast_ref::<crate::hir::combiner::Error>()
     {
         format!("an error occurred while parsing the tree: {}", error.kind())
-    } else if error.downcast_ref::<bulloak_syntax::semantics::Error>().is_some()
+    } else if error.downcast_ref::<bulloak_syntax::semantics::Errors>().is_some()
     {
         "at least one semantic error occurred while parsing the tree".to_owned()
     } else {
-- 
2.43.0


From 103d1f60e33de35cb91d6454ca9fad59d198cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 03/29] fix: treat a tree file with only comments as an empty
 tree

No tree was yielded for it, which made scaffold panic on an empty contract.
---
 crates/syntax/src/splitter.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/syntax/src/splitter.rs b/crates/syntax/src/splitter.rs
index 1c89309..02e8834 100644
--- a/crates/syntax/src/splitter.rs
+++ b/crates/syntax/src/splitter.rs
@@ -5,20 +5,23 @@ pub(crate) const TREES_SEPARATOR: &str = "\n\n";
 /// Splits the input text into distinct trees, delimited by two consecutive
 /// newlines.
 pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
-    if text.trim().is_empty() {
+    if only_comments(text) {
         return Box::new(std::iter::once(""));
     }
 
     let trees = text.split(TREES_SEPARATOR).map(str::trim);
     let non_empty_trees = trees.filter(|s| !s.is_empty());
-    let no_isolated_comments = non_empty_trees.filter(not_only_comments);
+    let no_isolated_comments = non_empty_trees.filter(|s| !only_comments(s));
 
     Box::new(no_isolated_comments)
 }
 
-/// Return whether the given string only contains lines starting with `//`.
-fn not_only_comments(tree: &&str) -> bool {
-    !tree.lines().all(|l| l.trim().starts_with("//"))
+/// Return whether the given string only contains blank lines and lines starting
+/// with `//`.
+fn only_comments(tree: &str) -> bool {
+    tree.lines()
+        .map(str::trim)
+        .all(|line| line.is_empty() || line.starts_with("//"))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1e1d6609d1a208c41bb706c556dd9eebe7d03561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 04/29] fix: split trees separated by CRLF blank lines

---
 crates/syntax/src/splitter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/splitter.rs b/crates/syntax/src/splitter.rs
index 02e8834..884a3c1 100644
--- a/crates/syntax/src/splitter.rs
+++ b/crates/syntax/src/splitter.rs
@@ -2,6 +2,9 @@
 /// trees.
 pub(crate) const TREES_SEPARATOR: &str = "\n\n";
 
+/// The separator used between trees in files with CRLF line endings.
+pub(crate) const TREES_SEPARATOR_CRLF: &str = "\r\n\r\n";
+
 /// Splits the input text into distinct trees, delimited by two consecutive
 /// newlines.
 pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
@@ -9,7 +12,10 @@ pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
         return Box::new(std::iter::once(""));
     }
 
-    let trees = text.split(TREES_SEPARATOR).map(str::trim);
+    let trees = text
+        .split(TREES_SEPARATOR)
+        .flat_map(|s| s.split(TREES_SEPARATOR_CRLF))
+        .map(str::trim);
     let non_empty_trees = trees.filter(|s| !s.is_empty());
     let no_isolated_comments = non_empty_trees.filter(|s| !only_comments(s));
 
-- 
2.43.0


From 30298e464050777c9492eebbd044b32abb0f5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 05/29] fix: report duplicated identifiers in a deterministic
 order

---
 crates/syntax/src/semantics.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/semantics.rs b/crates/syntax/src/semantics.rs
index 933f501..0a15a5f 100644
--- a/crates/syntax/src/semantics.rs
+++ b/crates/syntax/src/semantics.rs
@@ -134,7 +134,11 @@ impl<'t> SemanticAnalyzer<'t> {
         .unwrap();
 
         // Check for duplicate conditions.
-        for spans in self.identifiers.clone().into_values() {
+        let mut identifiers: Vec<_> =
+            self.identifiers.clone().into_values().collect();
+        // The iteration order of the map is random.
+        identifiers.sort_by_key(|spans| spans[0].start.offset);
+        for spans in identifiers {
             if spans.len() > 1 {
                 self.error(
                     // FIXME: This is a patch until we start storing locations
-- 
2.43.0


From 9735355688cbc1b7703b39d2414e7af875065270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 06/29] fix: make spans and errors relative to the whole tree
 file

Every tree of a file was parsed on its own, so lines in spans, errors and check
locations started at 1 for each tree and ignored leading blank lines and
comments.
---
 crates/syntax/src/lib.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/lib.rs b/crates/syntax/src/lib.rs
index 42a95c1..61fadb3 100644
--- a/crates/syntax/src/lib.rs
+++ b/crates/syntax/src/lib.rs
@@ -22,7 +22,26 @@ pub use visitor::Visitor;
 
 /// Parses a string containing trees into ASTs.
 pub fn parse(text: &str) -> anyhow::Result<Vec<ast::Ast>> {
-    splitter::split_trees(text).map(parse_one).collect()
+    splitter::split_trees(text)
+        .map(|tree| parse_one(&with_preceding_blanked(text, tree)))
+        .collect()
+}
+
+/// Returns the contents of `text` up to the end of `tree`, where everything
+/// that precedes `tree` is replaced by blanks.
+///
+/// `tree` must be a subslice of `text`. This way, the spans of the tree are
+/// relative to the text it comes from.
+fn with_preceding_blanked(text: &str, tree: &str) -> String {
+    if tree.is_empty() {
+        return String::new();
+    }
+
+    let start = tree.as_ptr() as usize - text.as_ptr() as usize;
+    let blanks =
+        text[..start].bytes().map(|b| if b == b'\n' { '\n' } else { ' ' });
+
+    blanks.chain(tree.chars()).collect()
 }
 
 /// Parses a string containing a single tree into an AST.
-- 
2.43.0


From 3971df356910810a9f85e0de02f591f99b390ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 07/29] fix: don't panic when the scaffolded code can't be
 formatted

A root that isn't a Solidity identifier, e.g. `1Foo` or `contract`, made
scaffold panic instead of reporting an error.
---
 crates/foundry/src/scaffold/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/foundry/src/scaffold/mod.rs b/crates/foundry/src/scaffold/mod.rs
index 748ab52..f160c83 100644
--- a/crates/foundry/src/scaffold/mod.rs
+++ b/crates/foundry/src/scaffold/mod.rs
@@ -2,6 +2,7 @@
 //!
 //! This command scaffolds a Solidity file from a spec `.tree` file.
 
+use anyhow::anyhow;
 use forge_fmt::fmt;
 
 use crate::{config::Config, hir::translate, sol};
@@ -18,8 +19,9 @@ pub fn scaffold(text: &str, cfg: &Config) -> anyhow::Result<String> {
     let hir = translate(text, cfg)?;
     let pt = sol::Translator::new(cfg).translate(&hir);
     let source = sol::Formatter::new().emit(pt);
-    let formatted =
-        fmt(&source).expect("should format the emitted solidity code");
 
-    Ok(formatted)
+    // Formatting fails if the root of the tree is not a valid contract name or
+    // if the Solidity version in the config isn't valid.
+    fmt(&source)
+        .map_err(|e| anyhow!("could not emit valid Solidity code: {e}"))
 }
-- 
2.43.0


From 86eafa1f66af4df86544d87194d45caa42d02760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 08/29] fix: sanitize the title of a top-level action before
 capitalizing its words

The first letter of a word that starts with e.g. a quote wasn't capitalized, so
`it 'foo' bar` became `test_fooBar` and was reported as a duplicate of
`it foo bar`, which has another name.
---
 crates/foundry/src/hir/translator.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/foundry/src/hir/translator.rs b/crates/foundry/src/hir/translator.rs
index e9fa6d1..a70ca4e 100644
--- a/crates/foundry/src/hir/translator.rs
+++ b/crates/foundry/src/hir/translator.rs
@@ -103,7 +103,11 @@ impl<'a> Visitor for TranslatorI<'a> {
                 }
                 // Found a top-level action. This corresponds to a function.
                 Ast::Action(action) => {
-                    let words = action.title.split_whitespace();
+                    // We need to sanitize here and not in a previous compiler
+                    // phase because we want to emit the action as is in a
+                    // comment.
+                    let title = sanitize(&action.title);
+                    let words = title.split_whitespace();
                     let words = words.skip(1); // Removes "it" from the test name.
 
                     // Map an iterator over the words of an action to the test
@@ -119,10 +123,6 @@ impl<'a> Visitor for TranslatorI<'a> {
                         },
                     );
 
-                    // We need to sanitize here and not in a previous compiler
-                    // phase because we want to emit the action as is in a
-                    // comment.
-                    let test_name = sanitize(&test_name);
                     let test_name = format!("test_{test_name}");
 
                     let mut hirs = self.visit_action(action)?;
-- 
2.43.0


From d040d01094f357f7bb6fedeaeed6820e765148b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 09/29] fix: reject trees whose tests would have the same name

Tests of different trees with the same name were dropped as if they were
repeated modifiers, and names that are equal even though the titles aren't,
e.g. `it when x` and `when x`, were emitted twice.
---
 crates/foundry/src/hir/combiner.rs | 31 ++++++++++++++++++++++++++++--
 crates/foundry/src/hir/mod.rs      | 13 ++++++++-----
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 37ecd0d..5d2e520 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -71,6 +71,10 @@ pub enum ErrorKind {
     /// one of the tree roots.
     #[error("separator missing at tree root #{0}. Expected to find `::` between the contract name and the function name when multiple roots exist")]
     SeparatorMissing(Index),
+
+    /// Two tests end up with the same name.
+    #[error("found more than one test with the name '{0}'")]
+    TestNameDuplicated(Identifier),
 }
 
 /// A high-level intermediate representation (HIR) combiner.
@@ -204,6 +208,28 @@ impl<'t> CombinerI<'t> {
     }
 }
 
+/// Checks that no two tests in the given HIR have the same name, in which case
+/// the emitted contract wouldn't be valid.
+pub(crate) fn ensure_unique_tests(text: &str, hir: &Hir) -> Result<()> {
+    let Some(contract) = hir.find_contract() else {
+        return Ok(());
+    };
+
+    let mut names = HashSet::new();
+    for child in &contract.children {
+        let Hir::FunctionDefinition(test) = child else { continue };
+        if test.is_function() && !names.insert(&test.identifier) {
+            return Err(Error {
+                kind: ErrorKind::TestNameDuplicated(test.identifier.clone()),
+                text: text.to_owned(),
+                span: test.span.with_end(test.span.start),
+            });
+        }
+    }
+
+    Ok(())
+}
+
 fn prefix_test(child: Hir, prefix: &str) -> Hir {
     let Hir::FunctionDefinition(mut test_or_modifier) = child else {
         return child;
@@ -248,11 +274,12 @@ fn collect_modifier(
     // If child is of type `FunctionDefinition` with the same identifier
     // as a child of another `ContractDefinition` of ty `Modifier`, then
     // they are duplicates.
-    if unique_modifiers.contains(&test_or_modifier.identifier) {
+    if test_or_modifier.is_modifier()
+        && !unique_modifiers.insert(test_or_modifier.identifier.clone())
+    {
         return None;
     }
 
-    unique_modifiers.insert(test_or_modifier.identifier.clone());
     Some(Hir::FunctionDefinition(test_or_modifier.clone()))
 }
 
diff --git a/crates/foundry/src/hir/mod.rs b/crates/foundry/src/hir/mod.rs
index d02c3b5..87aa14e 100644
--- a/crates/foundry/src/hir/mod.rs
+++ b/crates/foundry/src/hir/mod.rs
@@ -26,12 +26,15 @@ use crate::{config::Config, scaffold::modifiers::ModifierDiscoverer};
 pub fn translate(text: &str, cfg: &Config) -> anyhow::Result<Hir> {
     let asts = bulloak_syntax::parse(text)?;
 
-    if asts.len() == 1 {
-        return Ok(translate_one(&asts[0], cfg));
-    }
+    let hir = if asts.len() == 1 {
+        translate_one(&asts[0], cfg)
+    } else {
+        let hirs = asts.into_iter().map(|ast| translate_one(&ast, cfg));
+        combiner::Combiner::new().combine(text, hirs)?
+    };
+    combiner::ensure_unique_tests(text, &hir)?;
 
-    let hirs = asts.into_iter().map(|ast| translate_one(&ast, cfg));
-    Ok(combiner::Combiner::new().combine(text, hirs)?)
+    Ok(hir)
 }
 
 /// Generates the HIR for a single AST.
-- 
2.43.0


From 2e992ac7ca83dce47ea60e3e8fa7abdab5ff4f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 10/29] fix: don't panic when a fix would result in invalid
 solidity

A tree whose root isn't a valid contract name, e.g. `1Foo`, made
`check --fix` panic.
---
 crates/foundry/src/check/context.rs   | 11 +++++++++
 crates/foundry/src/check/violation.rs | 33 ++++++++-------------------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/crates/foundry/src/check/context.rs b/crates/foundry/src/check/context.rs
index 88ff852..7471653 100644
--- a/crates/foundry/src/check/context.rs
+++ b/crates/foundry/src/check/context.rs
@@ -87,6 +87,17 @@ impl Context {
         self
     }
 
+    /// Updates this `Context` with the given Solidity source, or returns it as
+    /// it was if the source can't be parsed, e.g. because the tree's contract
+    /// name is not a valid identifier.
+    #[must_use]
+    pub(crate) fn with_source(self, source: &str) -> Self {
+        match forge_fmt::parse(source) {
+            Ok(parsed) => self.from_parsed(parsed),
+            Err(_) => self,
+        }
+    }
+
     /// Updates the context with a formatted representation of the Solidity
     /// file.
     pub fn fmt(self) -> anyhow::Result<String, FormatterError> {
diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 916f769..da05e39 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -2,10 +2,7 @@
 use std::{borrow::Cow, collections::HashSet, fmt};
 
 use bulloak_syntax::FrontendError;
-use forge_fmt::{
-    parse,
-    solang_ext::{CodeLocationExt, SafeUnwrap},
-};
+use forge_fmt::solang_ext::{CodeLocationExt, SafeUnwrap};
 use owo_colors::OwoColorize;
 use solang_parser::{
     pt,
@@ -170,25 +167,22 @@ impl ViolationKind {
         Some(text)
     }
 
-    /// Returns a new context with this violation fixed.
-    pub fn fix(&self, mut ctx: Context) -> Context {
+    /// Returns a new context with this violation fixed, or the same context
+    /// if the fix would result in invalid Solidity.
+    pub fn fix(&self, ctx: Context) -> Context {
         match self {
             ViolationKind::ContractMissing(_) => {
                 let pt = sol::Translator::new(&Config::default())
                     .translate(&ctx.hir);
                 let source = sol::Formatter::new().emit(pt.clone());
-                let parsed =
-                    parse(&source).expect("should parse Solidity string");
-                ctx.from_parsed(parsed)
+                ctx.with_source(&source)
             }
             ViolationKind::ContractNameNotMatches(new_name, old_name) => {
                 let source = ctx.src.replace(
                     &format!("contract {old_name}"),
                     &format!("contract {new_name}"),
                 );
-                let parsed =
-                    parse(&source).expect("should parse Solidity string");
-                ctx.from_parsed(parsed)
+                ctx.with_source(&source)
             }
             // Assume order violations have been taken care of first.
             ViolationKind::MatchingFunctionMissing(fn_hir, index) => {
@@ -205,12 +199,9 @@ impl ViolationKind {
                     *index,
                     &ctx.src,
                 );
-                ctx.insert_function_at(fn_hir, offset);
-
-                let source = ctx.src.clone();
-                let parsed =
-                    parse(&source).expect("should parse solidity string");
-                ctx.from_parsed(parsed)
+                let mut fixed = ctx.clone();
+                fixed.insert_function_at(fn_hir, offset);
+                ctx.with_source(&fixed.src)
             }
             _ => ctx,
         }
@@ -299,9 +290,6 @@ fn find_contract_body_start(
 ///
 /// # Returns
 /// Updated Context with reordered functions in Solidity source code
-///
-/// # Panics
-/// If the reconstructed Solidity string fails to parse
 #[must_use]
 pub fn fix_order(
     violations: &[Violation],
@@ -401,6 +389,5 @@ pub fn fix_order(
         )
     };
 
-    let parsed = parse(&source).expect("should parse solidity string");
-    ctx.from_parsed(parsed)
+    ctx.with_source(&source)
 }
-- 
2.43.0


From e711de6ca710cbd38add068476feb2bf9672618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 11/29] fix: rename only the contract that doesn't match

The name was replaced textually, which also changed every other contract whose
name starts with the old name, comments and strings, and did nothing for
`contract  Foo`.
---
 crates/foundry/src/check/violation.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index da05e39..a03656e 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -177,10 +177,17 @@ impl ViolationKind {
                 let source = sol::Formatter::new().emit(pt.clone());
                 ctx.with_source(&source)
             }
-            ViolationKind::ContractNameNotMatches(new_name, old_name) => {
-                let source = ctx.src.replace(
-                    &format!("contract {old_name}"),
-                    &format!("contract {new_name}"),
+            ViolationKind::ContractNameNotMatches(new_name, _) => {
+                let Some(old_name) =
+                    find_contract(&ctx.pt).and_then(|contract| contract.name)
+                else {
+                    return ctx;
+                };
+
+                let mut source = ctx.src.clone();
+                source.replace_range(
+                    old_name.loc.start()..old_name.loc.end(),
+                    new_name,
                 );
                 ctx.with_source(&source)
             }
-- 
2.43.0


From 781d716afabed92f07b0b0d9f48c3291dc812d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 12/29] fix: keep the contents of the file when adding a
 missing contract

The whole file was replaced, which lost imports, structs, free functions and
comments. The contract also had modifiers in it when they were skipped.
---
 crates/foundry/src/check/violation.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index a03656e..e4584f0 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -6,13 +6,12 @@ use forge_fmt::solang_ext::{CodeLocationExt, SafeUnwrap};
 use owo_colors::OwoColorize;
 use solang_parser::{
     pt,
-    pt::{ContractDefinition, ContractPart},
+    pt::{ContractDefinition, ContractPart, SourceUnitPart},
 };
 use thiserror::Error;
 
 use super::{context::Context, location::Location};
 use crate::{
-    config::Config,
     hir::{self, Hir},
     sol::{self, find_contract, find_matching_fn},
 };
@@ -172,9 +171,19 @@ impl ViolationKind {
     pub fn fix(&self, ctx: Context) -> Context {
         match self {
             ViolationKind::ContractMissing(_) => {
-                let pt = sol::Translator::new(&Config::default())
-                    .translate(&ctx.hir);
-                let source = sol::Formatter::new().emit(pt.clone());
+                let mut pt =
+                    sol::Translator::new(&ctx.cfg).translate(&ctx.hir);
+                if ctx.src.trim().is_empty() {
+                    let source = sol::Formatter::new().emit(pt);
+                    return ctx.with_source(&source);
+                }
+
+                // Add only the contract, and keep what's in the file.
+                pt.0.retain(|part| {
+                    matches!(part, SourceUnitPart::ContractDefinition(_))
+                });
+                let contract = sol::Formatter::new().emit(pt);
+                let source = format!("{}\n\n{contract}", ctx.src);
                 ctx.with_source(&source)
             }
             ViolationKind::ContractNameNotMatches(new_name, _) => {
-- 
2.43.0


From 411a1c2ff39422ffe3d932b9ed61c9f6b21a8a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 13/29] fix: don't panic when fixing a function that follows a
 skipped modifier

`check --fix -m` expected the previous construct of the tree to be present.
---
 crates/foundry/src/check/violation.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index e4584f0..0200c16 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -245,19 +245,19 @@ fn get_insertion_offset(
     index: usize,
     src: impl AsRef<str>,
 ) -> usize {
-    if index == 0 {
-        return find_contract_body_start(contract_sol, src.as_ref());
-    }
-
-    match &contract_hir.children[index - 1] {
-        Hir::FunctionDefinition(prev_fn_hir) => {
+    // The previous function might not be there, e.g. if it is a modifier and
+    // these are skipped.
+    let prev_fn_sol =
+        contract_hir.children[..index].iter().rev().find_map(|child| {
+            let Hir::FunctionDefinition(prev_fn_hir) = child else {
+                return None;
+            };
             find_matching_fn(contract_sol, prev_fn_hir)
-                .expect("matching function should exist")
-                .1
-                .loc()
-                .end()
-        }
-        _ => unreachable!("previous child should be a function definition"),
+        });
+
+    match prev_fn_sol {
+        Some((_, prev_fn_sol)) => prev_fn_sol.loc().end(),
+        None => find_contract_body_start(contract_sol, src.as_ref()),
     }
 }
 
-- 
2.43.0


From b077b119e14cfe7b935792723e946e0ea60f6607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 14/29] fix: find the start of a contract's body after its
 header

A brace in a comment or in the arguments of a base of the contract was taken for
the start of its body, so `check --fix` inserted functions there.
---
 crates/foundry/src/check/violation.rs | 33 +++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 0200c16..e0bcda7 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -274,12 +274,35 @@ fn find_contract_body_start(
     contract_sol: &pt::ContractDefinition,
     src: &str,
 ) -> usize {
-    let contract_start = contract_sol.loc.start();
-    let opening_brace_pos = src[contract_start..]
-        .find('{')
-        .expect("contract should have an opening brace");
+    // The arguments of a base might contain braces.
+    let header_end = match (contract_sol.base.last(), &contract_sol.name) {
+        (Some(base), _) => base.loc.end(),
+        (None, Some(name)) => name.loc.end(),
+        (None, None) => contract_sol.loc.start(),
+    };
+
+    find_in_code(src, header_end, '{')
+        .expect("contract should have an opening brace")
+        + 1
+}
 
-    contract_start + opening_brace_pos + 1
+/// Finds the position of the first `needle` at or after `start` that is not
+/// inside of a comment.
+fn find_in_code(src: &str, start: usize, needle: char) -> Option<usize> {
+    let mut pos = start;
+    loop {
+        let rest = &src[pos..];
+        let end = if rest.starts_with("//") {
+            rest.find('\n')?
+        } else if rest.starts_with("/*") {
+            rest[2..].find("*/")? + 4
+        } else if rest.starts_with(needle) {
+            return Some(pos);
+        } else {
+            rest.chars().next()?.len_utf8()
+        };
+        pos += end;
+    }
 }
 
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
-- 
2.43.0


From 015404e30e663ea0f3922573273f72ca107c47a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 15/29] fix: insert functions after the semicolon of functions
 without a body

---
 crates/foundry/src/check/violation.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index e0bcda7..e46f85f 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -256,11 +256,22 @@ fn get_insertion_offset(
         });
 
     match prev_fn_sol {
-        Some((_, prev_fn_sol)) => prev_fn_sol.loc().end(),
+        Some((_, prev_fn_sol)) => find_fn_end(prev_fn_sol, src.as_ref()),
         None => find_contract_body_start(contract_sol, src.as_ref()),
     }
 }
 
+/// Finds the position after a function in the source code, including the
+/// semicolon of functions without a body.
+fn find_fn_end(fn_sol: &pt::FunctionDefinition, src: &str) -> usize {
+    let end = fn_sol.loc().end();
+    if fn_sol.body.is_some() {
+        return end;
+    }
+
+    find_in_code(src, end, ';').map_or(end, |semicolon| semicolon + 1)
+}
+
 /// Finds the starting position of a contract's body in the source code.
 ///
 /// # Arguments
-- 
2.43.0


From 08b6f6b826049b128588f87538660f1638290459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 16/29] fix: reorder functions by their position in check --fix

Stale indices duplicated or dropped functions and left others unsorted, which
took several runs to converge. Constructors and functions without a body made it
panic, and every textual copy of a moved function was erased.
---
 crates/foundry/src/check/violation.rs | 74 ++++++++-------------------
 1 file changed, 22 insertions(+), 52 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index e46f85f..341a082 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -1,12 +1,12 @@
 //! Defines a rule-checking error object.
-use std::{borrow::Cow, collections::HashSet, fmt};
+use std::{borrow::Cow, fmt};
 
 use bulloak_syntax::FrontendError;
 use forge_fmt::solang_ext::{CodeLocationExt, SafeUnwrap};
 use owo_colors::OwoColorize;
 use solang_parser::{
     pt,
-    pt::{ContractDefinition, ContractPart, SourceUnitPart},
+    pt::{ContractDefinition, SourceUnitPart},
 };
 use thiserror::Error;
 
@@ -319,16 +319,13 @@ fn find_in_code(src: &str, start: usize, needle: char) -> Option<usize> {
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
 ///
 /// The algorithm goes like this:
-/// 1. It first creates a set of function names present in `contract_hir` to
-///    identify the functions that need to be sorted.
-/// 2. It then iterates over the `violations` to correct the order of functions
-///    in `contract_sol`, matching them with `contract_hir`.
-/// 3. Functions not part of `contract_hir` are removed, as their correct
-///    position is unknown.
-/// 4. The sorted functions are then compiled into a string (`source`) and
+/// 1. It first finds the functions of `contract_sol` that appear in
+///    `contract_hir`, in the order in which they appear there. These are the
+///    functions that we know how to sort.
+/// 2. The sorted functions are then compiled into a string (`source`) and
 ///    simultaneously removed from a temporary string (`scratch`) that mirrors
 ///    the original source code.
-/// 5. Finally, the function reconstructs the contract's body by combining the
+/// 3. Finally, the function reconstructs the contract's body by combining the
 ///    sorted functions and any remaining parts of the contract (preserved in
 ///    `scratch`), ensuring all components are included in the output.
 ///
@@ -347,65 +344,38 @@ pub fn fix_order(
     contract_hir: &hir::ContractDefinition,
     ctx: Context,
 ) -> Context {
-    // 1. Create a set containing the functions that appear in the tree.
-    //
-    // These are the functions that we know how to sort.
-    let fn_names: HashSet<String> = contract_hir
-        .children
-        .iter()
-        .filter_map(|child| {
-            if let hir::Hir::FunctionDefinition(f) = &child {
-                Some(f.identifier.clone())
-            } else {
-                None
-            }
-        })
-        .collect();
-
-    // 2. Properly sort functions in a new vec.
-    let mut fns = contract_sol.parts.clone();
-    for violation in violations {
-        if let ViolationKind::FunctionOrderMismatch(f, sol_idx, hir_idx) =
-            &violation.kind
-        {
-            fns.remove(*sol_idx);
-            fns.insert(
-                *hir_idx,
-                ContractPart::FunctionDefinition(Box::new(f.clone())),
-            );
-        }
+    if violations.is_empty() {
+        return ctx;
     }
 
-    // 3. Remove functions that are not part of the hir since
-    // we don't know where they go.
-    let fns: Vec<&ContractPart> = fns
+    // 1. Find the functions that appear in the tree, properly sorted.
+    let fns: Vec<&pt::FunctionDefinition> = contract_hir
+        .children
         .iter()
-        .filter(|f| {
-            if let ContractPart::FunctionDefinition(f) = f {
-                fn_names.contains(&f.name.safe_unwrap().name)
-            } else {
-                false
+        .filter_map(|child| match child {
+            Hir::FunctionDefinition(fn_hir) => {
+                find_matching_fn(contract_sol, fn_hir).map(|(_, f)| f)
             }
+            _ => None,
         })
         .collect();
 
-    // 4. a - Add the functions that appear in the tree to the blank
+    // 2. a - Add the functions that appear in the tree to the blank
     // string `source`.
     //    b - Replace them with whitespace in `scratch`.
     //
     // Since we sorted in a previous step, they'll appear sorted in
-    // the string. We do 4.b because we want to append the remaining
+    // the string. We do 2.b because we want to append the remaining
     // functions after the sorted functions.
     let mut scratch = ctx.src.clone();
     let mut source = Vec::with_capacity(fns.len());
     for f in &fns {
-        let loc = f.loc();
-        let f = ctx.src[loc.start()..loc.end()].to_owned();
-        scratch = scratch.replace(&f, " ".repeat(f.len()).as_str());
-        source.push(f);
+        let range = f.loc().start()..find_fn_end(f, &ctx.src);
+        source.push(ctx.src[range.clone()].to_owned());
+        scratch.replace_range(range.clone(), &" ".repeat(range.len()));
     }
 
-    // 5. Replace the contract's body with the sorted functions and
+    // 3. Replace the contract's body with the sorted functions and
     // the extra functions contained in the scratch string.
     // We know there is at least two parts because we found order violations.
     let first_part_loc = contract_sol.parts[0].loc();
-- 
2.43.0


From ebb5fd1ee1d35041f2e368f819cce4b8b53b2daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 17/29] fix: report the violations that check --fix can't fix

Missing Solidity files and trees that couldn't be parsed were ignored, and the
command succeeded.
---
 crates/bulloak/src/check.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 5b736ad..a043bcf 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -65,6 +65,7 @@ impl Check {
 
         if self.fix {
             let mut fixed_count = 0;
+            let mut unfixed = violations;
             for mut ctx in ctxs {
                 let violations = rules::StructuralMatcher::check(&ctx);
                 let fixable_count =
@@ -108,20 +109,32 @@ impl Check {
                 }
 
                 let sol = ctx.sol.clone();
+                let remaining = rules::StructuralMatcher::check(&ctx);
+                let remaining_count =
+                    remaining.iter().filter(|v| v.is_fixable()).count();
+
                 let formatted =
                     ctx.fmt().expect("should format the emitted solidity code");
                 self.write(&formatted, sol);
 
-                fixed_count += fixable_count;
+                unfixed.extend(remaining);
+                fixed_count += fixable_count.saturating_sub(remaining_count);
             }
 
-            let issue_literal = pluralize(fixed_count, "issue", "issues");
-            println!(
-                "\n{}: {} {} fixed.",
-                "success".bold().green(),
-                fixed_count,
-                issue_literal
-            );
+            if unfixed.is_empty() || fixed_count > 0 {
+                let issue_literal = pluralize(fixed_count, "issue", "issues");
+                println!(
+                    "\n{}: {} {} fixed.",
+                    "success".bold().green(),
+                    fixed_count,
+                    issue_literal
+                );
+            }
+
+            // Report what couldn't be fixed.
+            if !unfixed.is_empty() {
+                exit(&unfixed);
+            }
         } else {
             for ctx in ctxs {
                 violations.append(&mut rules::StructuralMatcher::check(&ctx));
-- 
2.43.0


From dc04dfbb8c47066e5d8f7329da40f937d47399d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 18/29] fix: fail when an output file can't be written

Both commands exited with success, and check --fix reported the issues as
fixed.
---
 crates/bulloak/src/check.rs    | 27 +++++++++++++++++++++------
 crates/bulloak/src/scaffold.rs | 11 +++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index a043bcf..232f8d9 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -3,7 +3,10 @@
 //! This command performs checks on the relationship between a bulloak tree and
 //! a Solidity file.
 
-use std::{fs, path::PathBuf};
+use std::{
+    fs, io,
+    path::{Path, PathBuf},
+};
 
 use bulloak_foundry::{
     check::{
@@ -65,6 +68,7 @@ impl Check {
 
         if self.fix {
             let mut fixed_count = 0;
+            let mut failed_to_write = false;
             let mut unfixed = violations;
             for mut ctx in ctxs {
                 let violations = rules::StructuralMatcher::check(&ctx);
@@ -115,13 +119,18 @@ impl Check {
 
                 let formatted =
                     ctx.fmt().expect("should format the emitted solidity code");
-                self.write(&formatted, sol);
+                if let Err(e) = self.write(&formatted, &sol) {
+                    let sol = sol.display();
+                    eprintln!("{}: {sol}: {e}", "error".red());
+                    failed_to_write = true;
+                    continue;
+                }
 
                 unfixed.extend(remaining);
                 fixed_count += fixable_count.saturating_sub(remaining_count);
             }
 
-            if unfixed.is_empty() || fixed_count > 0 {
+            if fixed_count > 0 || (unfixed.is_empty() && !failed_to_write) {
                 let issue_literal = pluralize(fixed_count, "issue", "issues");
                 println!(
                     "\n{}: {} {} fixed.",
@@ -135,6 +144,10 @@ impl Check {
             if !unfixed.is_empty() {
                 exit(&unfixed);
             }
+
+            if failed_to_write {
+                std::process::exit(1);
+            }
         } else {
             for ctx in ctxs {
                 violations.append(&mut rules::StructuralMatcher::check(&ctx));
@@ -148,14 +161,16 @@ impl Check {
     ///
     /// If the `--stdout` flag was passed, then the output is printed to
     /// stdout, else it is written to the corresponding file.
-    fn write(&self, output: &str, sol: PathBuf) {
+    fn write(&self, output: &str, sol: &Path) -> io::Result<()> {
         if self.stdout {
             println!("{} {}", "-->".blue(), sol.to_string_lossy());
             println!("{}", output.trim());
             println!("{}", "<--".blue());
-        } else if let Err(e) = fs::write(sol, output) {
-            eprintln!("{}: {e}", "warn".yellow());
+        } else {
+            fs::write(sol, output)?;
         }
+
+        Ok(())
     }
 }
 
diff --git a/crates/bulloak/src/scaffold.rs b/crates/bulloak/src/scaffold.rs
index 89ade96..08b04c4 100644
--- a/crates/bulloak/src/scaffold.rs
+++ b/crates/bulloak/src/scaffold.rs
@@ -96,7 +96,7 @@ impl Scaffold {
 
         if self.write_files {
             let file = file.with_extension("t.sol");
-            self.write_file(&formatted, &file);
+            self.write_file(&formatted, &file)?;
         } else {
             println!("{formatted}");
         }
@@ -108,7 +108,7 @@ impl Scaffold {
     ///
     /// If the file doesn't exist it will create it. If it exists,
     /// and `--force-write` was not passed, it will skip writing to the file.
-    fn write_file(&self, text: &str, file: &PathBuf) {
+    fn write_file(&self, text: &str, file: &PathBuf) -> anyhow::Result<()> {
         // Don't overwrite files unless `--force-write` was passed.
         if file.exists() && !self.force_write {
             eprintln!(
@@ -120,12 +120,11 @@ impl Scaffold {
                 "    {} The corresponding `.t.sol` file already exists",
                 "=".blue()
             );
-            return;
+            return Ok(());
         }
 
-        if let Err(err) = fs::write(file, text) {
-            eprintln!("{}: {err}", "error".red());
-        };
+        fs::write(file, text)?;
+        Ok(())
     }
 
     /// Reports errors that occurred during file processing.
-- 
2.43.0


From 57efac8c8d21339b678784a6cfdc6a87adae0126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 19/29] fix: report a branch without content where it is

---
 crates/syntax/src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/syntax/src/parser.rs b/crates/syntax/src/parser.rs
index 29a861e..a5878ba 100644
--- a/crates/syntax/src/parser.rs
+++ b/crates/syntax/src/parser.rs
@@ -360,12 +360,12 @@ impl<'t, P: Borrow<Parser>> ParserI<'t, P> {
             // The column determines the tree level we are in.
             .is_some_and(|t| t.span.start.column > token.span.start.column)
         {
+            let current_token = self.current().unwrap();
             let next_token = self.peek().ok_or(self.error(
-                token.span.with_start(token.span.end),
+                current_token.span.with_start(current_token.span.end),
                 ErrorKind::EofUnexpected,
             ))?;
 
-            let current_token = self.current().unwrap();
             let ast = match next_token.kind {
                 TokenKind::When | TokenKind::Given => {
                     self.parse_condition(current_token)?
@@ -415,12 +415,12 @@ impl<'t, P: Borrow<Parser>> ParserI<'t, P> {
             // The column determines the tree level we are in.
             .is_some_and(|t| t.span.start.column > token.span.start.column)
         {
+            let current_token = self.current().unwrap();
             let next_token = self.peek().ok_or(self.error(
-                token.span.with_start(token.span.end),
+                current_token.span.with_start(current_token.span.end),
                 ErrorKind::EofUnexpected,
             ))?;
 
-            let current_token = self.current().unwrap();
             let ast = match next_token.kind {
                 TokenKind::Word => self.parse_description(
                     current_token,
-- 
2.43.0


From d5f0e9c9803a2f4b33effa87a9a551111ad9f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 20/29] fix: don't let the text of a tree configure the
 formatter

---
 crates/bulloak/src/scaffold.rs     | 11 +++--------
 crates/foundry/src/scaffold/mod.rs | 14 +++++++++++---
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/crates/bulloak/src/scaffold.rs b/crates/bulloak/src/scaffold.rs
index 08b04c4..5b3b1e4 100644
--- a/crates/bulloak/src/scaffold.rs
+++ b/crates/bulloak/src/scaffold.rs
@@ -9,7 +9,6 @@ use std::{
 
 use bulloak_foundry::{constants::DEFAULT_SOL_VERSION, scaffold::scaffold};
 use clap::Parser;
-use forge_fmt::fmt;
 use owo_colors::OwoColorize;
 use serde::{Deserialize, Serialize};
 
@@ -84,15 +83,11 @@ impl Scaffold {
 
     /// Processes a single input file.
     ///
-    /// This method reads the input file, scaffolds the Solidity code, formats
-    /// it, and either writes it to a file or prints it to stdout.
+    /// This method reads the input file, scaffolds the Solidity code, and either
+    /// writes it to a file or prints it to stdout.
     fn process_file(&self, file: &Path, cfg: &Cli) -> anyhow::Result<()> {
         let text = fs::read_to_string(file)?;
-        let emitted = scaffold(&text, &cfg.into())?;
-        let formatted = fmt(&emitted).unwrap_or_else(|err| {
-            eprintln!("{}: {}", "WARN".yellow(), err);
-            emitted
-        });
+        let formatted = scaffold(&text, &cfg.into())?;
 
         if self.write_files {
             let file = file.with_extension("t.sol");
diff --git a/crates/foundry/src/scaffold/mod.rs b/crates/foundry/src/scaffold/mod.rs
index f160c83..3a7e374 100644
--- a/crates/foundry/src/scaffold/mod.rs
+++ b/crates/foundry/src/scaffold/mod.rs
@@ -3,7 +3,7 @@
 //! This command scaffolds a Solidity file from a spec `.tree` file.
 
 use anyhow::anyhow;
-use forge_fmt::fmt;
+use forge_fmt::{format, FormatterConfig, InlineConfig};
 
 use crate::{config::Config, hir::translate, sol};
 
@@ -22,6 +22,14 @@ pub fn scaffold(text: &str, cfg: &Config) -> anyhow::Result<String> {
 
     // Formatting fails if the root of the tree is not a valid contract name or
     // if the Solidity version in the config isn't valid.
-    fmt(&source)
-        .map_err(|e| anyhow!("could not emit valid Solidity code: {e}"))
+    let mut parsed = forge_fmt::parse(&source)
+        .map_err(|_| anyhow!("could not emit valid Solidity code"))?;
+    // The comments are the text of the tree. They don't configure the
+    // formatter.
+    parsed.inline_config = InlineConfig::default();
+    let mut formatted = String::new();
+    format(&mut formatted, parsed, FormatterConfig::default())
+        .map_err(|e| anyhow!("could not emit valid Solidity code: {e}"))?;
+
+    Ok(formatted)
 }
-- 
2.43.0


From fd10b2e3ad23905e2f5bc3aeac8dc6ddc88dd8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 21/29] fix: skip any whitespace between words

Words end at any whitespace, but only some was skipped, so that the rest
became part of the next word.
---
 crates/syntax/src/tokenizer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/syntax/src/tokenizer.rs b/crates/syntax/src/tokenizer.rs
index c5044c0..7942ece 100644
--- a/crates/syntax/src/tokenizer.rs
+++ b/crates/syntax/src/tokenizer.rs
@@ -299,6 +299,9 @@ impl<'s, T: Borrow<Tokenizer>> TokenizerI<'s, T> {
                 '\n' | '\t' | '\r' => {
                     self.exit_mode();
                 }
+                // Words end at any kind of whitespace, e.g. the no-break spaces
+                // that `tree` prints.
+                c if c.is_whitespace() => {}
                 '├' => tokens.push(Token {
                     kind: TokenKind::Tee,
                     span: self.span(),
-- 
2.43.0


From 889bd1453fe651b1de4c12ac3e59d5329f472c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 22/29] fix: name the tree file in the suggested commands

---
 crates/foundry/src/check/violation.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 341a082..683598c 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -92,7 +92,7 @@ impl fmt::Display for Violation {
             writeln!(f, "     {} help: {}", "=".blue(), help_text)?;
         }
         if self.kind.is_fixable() {
-            let file = self.location.file().replace(".t.sol", ".tree");
+            let file = tree_path(&self.location.file());
             write!(f, "     {} fix: run ", "+".blue())?;
             writeln!(f, "`bulloak check --fix {file}`")?;
         }
@@ -102,6 +102,15 @@ impl fmt::Display for Violation {
     }
 }
 
+/// Returns the path of the tree that matches a Solidity file. Other paths are
+/// returned as they are.
+fn tree_path(file: &str) -> String {
+    match file.strip_suffix(".t.sol") {
+        Some(stem) => format!("{stem}.tree"),
+        None => file.to_owned(),
+    }
+}
+
 /// Formats frontend errors into human-readable messages.
 ///
 /// # Arguments
@@ -154,7 +163,7 @@ impl ViolationKind {
                 format!(r#"consider renaming the contract to "{name}""#).into()
             }
             ViolationKind::SolidityFileMissing(filename) => {
-                let filename = filename.replace(".t.sol", ".tree");
+                let filename = tree_path(filename);
                 format!("consider running `bulloak scaffold {filename}`").into()
             }
             ViolationKind::FunctionOrderMismatch(_, _, _) => {
-- 
2.43.0


From 06eb82bc16be1d16b6fa74ef85f4bea492acb9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 23/29] fix: end line comments at carriage returns when looking
 for code

---
 crates/foundry/src/check/violation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 683598c..dc7481c 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -313,7 +313,7 @@ fn find_in_code(src: &str, start: usize, needle: char) -> Option<usize> {
     loop {
         let rest = &src[pos..];
         let end = if rest.starts_with("//") {
-            rest.find('\n')?
+            rest.find(['\n', '\r'])?
         } else if rest.starts_with("/*") {
             rest[2..].find("*/")? + 4
         } else if rest.starts_with(needle) {
-- 
2.43.0


From bdbe3b5277a09c0386257d5b7da0ca42a2cfbc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 24/29] fix: don't overwrite an output file whose existence
 cannot be determined

---
 crates/bulloak/src/scaffold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bulloak/src/scaffold.rs b/crates/bulloak/src/scaffold.rs
index 5b3b1e4..bd7239c 100644
--- a/crates/bulloak/src/scaffold.rs
+++ b/crates/bulloak/src/scaffold.rs
@@ -105,7 +105,7 @@ impl Scaffold {
     /// and `--force-write` was not passed, it will skip writing to the file.
     fn write_file(&self, text: &str, file: &PathBuf) -> anyhow::Result<()> {
         // Don't overwrite files unless `--force-write` was passed.
-        if file.exists() && !self.force_write {
+        if !self.force_write && file.try_exists()? {
             eprintln!(
                 "{}: Skipped emitting {:?}",
                 "warn".yellow(),
-- 
2.43.0


From 61559805d929b7e0297cc9ee1682c03d90fce94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:55 +0000
Subject: [PATCH 25/29] fix: don't offer to rename a contract to an invalid
 identifier

---
 crates/foundry/src/check/violation.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index dc7481c..1864678 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -1,7 +1,7 @@
 //! Defines a rule-checking error object.
 use std::{borrow::Cow, fmt};
 
-use bulloak_syntax::FrontendError;
+use bulloak_syntax::{utils::sanitize, FrontendError};
 use forge_fmt::solang_ext::{CodeLocationExt, SafeUnwrap};
 use owo_colors::OwoColorize;
 use solang_parser::{
@@ -142,13 +142,17 @@ fn format_frontend_error(error: &anyhow::Error) -> String {
 impl ViolationKind {
     /// Whether this violation kind is fixable.
     pub fn is_fixable(&self) -> bool {
-        matches!(
-            self,
-            ViolationKind::ContractMissing(_)
-                | ViolationKind::ContractNameNotMatches(_, _)
-                | ViolationKind::FunctionOrderMismatch(_, _, _)
-                | ViolationKind::MatchingFunctionMissing(_, _)
-        )
+        match self {
+            // The root of the tree might not be a valid contract name.
+            ViolationKind::ContractMissing(name)
+            | ViolationKind::ContractNameNotMatches(name, _) => {
+                let name = sanitize(name);
+                forge_fmt::parse(&format!("contract {name} {{}}")).is_ok()
+            }
+            ViolationKind::FunctionOrderMismatch(_, _, _)
+            | ViolationKind::MatchingFunctionMissing(_, _) => true,
+            _ => false,
+        }
     }
 
     /// Optionally returns a help text to be used when displaying the violation
-- 
2.43.0


From df87b1bf5e5381dbd8cec87f05d0e29cb4a87317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 26/29] fix: locate what --fix can't fix in the file it writes

---
 crates/bulloak/src/check.rs         | 18 ++++++++++++------
 crates/foundry/src/check/context.rs |  2 +-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 232f8d9..a038568 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -113,12 +113,10 @@ impl Check {
                 }
 
                 let sol = ctx.sol.clone();
-                let remaining = rules::StructuralMatcher::check(&ctx);
-                let remaining_count =
-                    remaining.iter().filter(|v| v.is_fixable()).count();
-
-                let formatted =
-                    ctx.fmt().expect("should format the emitted solidity code");
+                let formatted = ctx
+                    .clone()
+                    .fmt()
+                    .expect("should format the emitted solidity code");
                 if let Err(e) = self.write(&formatted, &sol) {
                     let sol = sol.display();
                     eprintln!("{}: {sol}: {e}", "error".red());
@@ -126,6 +124,14 @@ impl Check {
                     continue;
                 }
 
+                // What is reported refers to the file as it is now.
+                if !self.stdout {
+                    ctx = ctx.with_source(&formatted);
+                }
+                let remaining = rules::StructuralMatcher::check(&ctx);
+                let remaining_count =
+                    remaining.iter().filter(|v| v.is_fixable()).count();
+
                 unfixed.extend(remaining);
                 fixed_count += fixable_count.saturating_sub(remaining_count);
             }
diff --git a/crates/foundry/src/check/context.rs b/crates/foundry/src/check/context.rs
index 7471653..dd49e50 100644
--- a/crates/foundry/src/check/context.rs
+++ b/crates/foundry/src/check/context.rs
@@ -91,7 +91,7 @@ impl Context {
     /// it was if the source can't be parsed, e.g. because the tree's contract
     /// name is not a valid identifier.
     #[must_use]
-    pub(crate) fn with_source(self, source: &str) -> Self {
+    pub fn with_source(self, source: &str) -> Self {
         match forge_fmt::parse(source) {
             Ok(parsed) => self.from_parsed(parsed),
             Err(_) => self,
-- 
2.43.0


From 2907d2e3f488c3bea92aeca8506f16db203f7a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 27/29] fix: sanitize the function names of trees

---
 crates/foundry/src/hir/combiner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 5d2e520..127ef14 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -2,7 +2,10 @@
 //! combiner.
 use std::{collections::HashSet, fmt, mem, result};
 
-use bulloak_syntax::{utils::upper_first_letter, FrontendError, Span};
+use bulloak_syntax::{
+    utils::{sanitize, upper_first_letter},
+    FrontendError, Span,
+};
 use thiserror::Error;
 
 use super::{ContractDefinition, Hir, Root};
@@ -258,7 +261,7 @@ fn update_children(
 
 /// Prefix the suffix of a test name.
 fn prefix_test_with(test_name: &str, prefix: &str) -> String {
-    let capitalized_fn_name = upper_first_letter(prefix);
+    let capitalized_fn_name = upper_first_letter(&sanitize(prefix));
     let test_suffix = test_name.trim_start_matches("test_");
     format!("test_{capitalized_fn_name}{test_suffix}")
 }
-- 
2.43.0


From 6ccdfe23f442dfa1d124844f8a3570bb930cea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:30 +0000
Subject: [PATCH 28/29] fix: keep the blanks before a tree

---
 crates/syntax/src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/syntax/src/lib.rs b/crates/syntax/src/lib.rs
index 61fadb3..cf8adde 100644
--- a/crates/syntax/src/lib.rs
+++ b/crates/syntax/src/lib.rs
@@ -28,7 +28,7 @@ pub fn parse(text: &str) -> anyhow::Result<Vec<ast::Ast>> {
 }
 
 /// Returns the contents of `text` up to the end of `tree`, where everything
-/// that precedes `tree` is replaced by blanks.
+/// that precedes `tree` is replaced by blanks. Whitespace stays as it is.
 ///
 /// `tree` must be a subslice of `text`. This way, the spans of the tree are
 /// relative to the text it comes from.
@@ -38,10 +38,17 @@ fn with_preceding_blanked(text: &str, tree: &str) -> String {
     }
 
     let start = tree.as_ptr() as usize - text.as_ptr() as usize;
-    let blanks =
-        text[..start].bytes().map(|b| if b == b'\n' { '\n' } else { ' ' });
+    let mut blanked = String::with_capacity(start + tree.len());
+    for c in text[..start].chars() {
+        if c.is_whitespace() {
+            blanked.push(c);
+        } else {
+            blanked.push_str(&" ".repeat(c.len_utf8()));
+        }
+    }
+    blanked.push_str(tree);
 
-    blanks.chain(tree.chars()).collect()
+    blanked
 }
 
 /// Parses a string containing a single tree into an AST.
-- 
2.43.0


From 01acabb56d67f344af7289917c65280e9e9f3049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:33 +0000
Subject: [PATCH 29/29] fix: suggest --fix on the tree that was given

---
 .../src/check/rules/structural_match.rs       |  8 +++---
 crates/foundry/src/check/violation.rs         | 25 +++++++++----------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/crates/foundry/src/check/rules/structural_match.rs b/crates/foundry/src/check/rules/structural_match.rs
index cbd346b..c133208 100644
--- a/crates/foundry/src/check/rules/structural_match.rs
+++ b/crates/foundry/src/check/rules/structural_match.rs
@@ -109,7 +109,8 @@ fn check_contract_names(
                     ctx.sol.as_path().to_string_lossy().into_owned(),
                     offset_to_line(&ctx.src, contract_sol.loc.start()),
                 ),
-            );
+            )
+            .with_tree(&ctx.tree);
             violations.push(violation);
         }
     };
@@ -191,7 +192,7 @@ fn check_fns_structure(
             if let pt::ContractPart::FunctionDefinition(ref fn_sol) =
                 contract_sol.parts[sol_idx]
             {
-                violations.push(Violation::new(
+                let violation = Violation::new(
                     ViolationKind::FunctionOrderMismatch(
                         *fn_sol.clone(),
                         sol_idx,
@@ -201,7 +202,8 @@ fn check_fns_structure(
                         ctx.sol.clone().to_string_lossy().into_owned(),
                         offset_to_line(&ctx.src, fn_sol.loc.start()),
                     ),
-                ));
+                );
+                violations.push(violation.with_tree(&ctx.tree));
             }
         }
     }
diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 1864678..5dfdf77 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -1,5 +1,5 @@
 //! Defines a rule-checking error object.
-use std::{borrow::Cow, fmt};
+use std::{borrow::Cow, fmt, path::Path};
 
 use bulloak_syntax::{utils::sanitize, FrontendError};
 use forge_fmt::solang_ext::{CodeLocationExt, SafeUnwrap};
@@ -25,12 +25,20 @@ pub struct Violation {
     pub kind: ViolationKind,
     /// The location information about this violation.
     pub location: Location,
+    /// The path of the tree, if it isn't where the violation is located.
+    tree: Option<String>,
 }
 
 impl Violation {
     /// Create a new violation.
     pub fn new(kind: ViolationKind, location: Location) -> Self {
-        Self { kind, location }
+        Self { kind, location, tree: None }
+    }
+
+    /// Sets the path of the tree that this violation is about.
+    #[must_use]
+    pub fn with_tree(self, tree: &Path) -> Self {
+        Self { tree: Some(tree.to_string_lossy().into_owned()), ..self }
     }
 
     /// Determines whether a given violation is fixable.
@@ -92,7 +100,8 @@ impl fmt::Display for Violation {
             writeln!(f, "     {} help: {}", "=".blue(), help_text)?;
         }
         if self.kind.is_fixable() {
-            let file = tree_path(&self.location.file());
+            let file =
+                self.tree.clone().unwrap_or_else(|| self.location.file());
             write!(f, "     {} fix: run ", "+".blue())?;
             writeln!(f, "`bulloak check --fix {file}`")?;
         }
@@ -102,15 +111,6 @@ impl fmt::Display for Violation {
     }
 }
 
-/// Returns the path of the tree that matches a Solidity file. Other paths are
-/// returned as they are.
-fn tree_path(file: &str) -> String {
-    match file.strip_suffix(".t.sol") {
-        Some(stem) => format!("{stem}.tree"),
-        None => file.to_owned(),
-    }
-}
-
 /// Formats frontend errors into human-readable messages.
 ///
 /// # Arguments
@@ -167,7 +167,6 @@ impl ViolationKind {
                 format!(r#"consider renaming the contract to "{name}""#).into()
             }
             ViolationKind::SolidityFileMissing(filename) => {
-                let filename = tree_path(filename);
                 format!("consider running `bulloak scaffold {filename}`").into()
             }
             ViolationKind::FunctionOrderMismatch(_, _, _) => {
-- 
2.43.0

