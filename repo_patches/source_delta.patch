From 1d81094d30a6519f4c30bd4670b2779b32473622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 01/16] fix: a hash that ends a macro definition no longer
 panics

---
 crates/mitex-lexer/src/macro_engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 64e5ba9..ea11379 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -954,7 +954,10 @@ impl<'a> MacroEngine<'a> {
         let mut empty_texts = false;
         for i in 0..def.len() {
             if def[i].0 == Token::Hash {
-                let next = def.get_mut(i + 1).unwrap();
+                // A hash at the end of a definition stays as it is
+                let Some(next) = def.get_mut(i + 1) else {
+                    break;
+                };
                 if next.0 == Token::Word {
                     let Some(first_char) = next.1.chars().next() else {
                         continue;
-- 
2.43.0


From 4573dd2547351ee9b7abd6a13bc0287c8069caed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 02/16] fix: count each character of a word once when reading
 macro arguments

---
 crates/mitex-lexer/src/macro_engine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index ea11379..76a9417 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -804,6 +804,8 @@ impl<'a> MacroEngine<'a> {
                     if num_of_read == num_args {
                         break;
                     }
+                    // The characters of the word are already counted
+                    continue;
                 }
                 Some(_) => {
                     args.push(vec![ctx.peek_full().unwrap()]);
-- 
2.43.0


From a34074138bc2f8e2936ecc85d0ae885a97123d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 03/16] fix: defining an environment clause as a command no
 longer panics

---
 crates/mitex-lexer/src/macro_engine.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 76a9417..916250e 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -672,8 +672,7 @@ impl<'a> MacroEngine<'a> {
         } else {
             ctx.peek_cmd_name_opt(BraceKind::Curly)?
                 .1
-                .strip_prefix('\\')
-                .unwrap()
+                .strip_prefix('\\')?
         };
 
         #[derive(Clone, Copy, PartialEq)]
-- 
2.43.0


From 7ec9ed6dccacc6cc5f228825040c372568210963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 04/16] fix: skipping a branch goes on past the else of a
 nested conditional

---
 crates/mitex-lexer/src/macro_engine.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 916250e..d0fd582 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -454,7 +454,14 @@ impl<'a> MacroEngine<'a> {
                     ctx.next_token();
                     nested += 1;
                 }
-                Token::CommandName(CommandName::Else) | Token::CommandName(CommandName::EndIf) => {
+                Token::CommandName(CommandName::Else) => {
+                    if nested == 0 {
+                        break;
+                    }
+                    // It belongs to a nested conditional, which goes on
+                    ctx.next_token();
+                }
+                Token::CommandName(CommandName::EndIf) => {
                     if nested == 0 {
                         break;
                     }
-- 
2.43.0


From 7d7ebfa83b8adb45ff9dbff59f6daffc2808eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 05/16] fix: count the line end of a comment when lexing
 environment clauses

---
 crates/mitex-lexer/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/token.rs b/crates/mitex-lexer/src/token.rs
index e5bf6d8..0531332 100644
--- a/crates/mitex-lexer/src/token.rs
+++ b/crates/mitex-lexer/src/token.rs
@@ -374,10 +374,10 @@ fn lex_begin_end(lexer: &mut logos::Lexer<Token>, is_begin: bool) -> CommandName
                 if c == '%' {
                     self.collected += c.len_utf8();
                     for c in self.chars.by_ref() {
+                        self.collected += c.len_utf8();
                         if c == '\n' || c == '\r' {
                             break;
                         }
-                        self.collected += c.len_utf8();
                     }
                     continue;
                 }
-- 
2.43.0


From 761aa357e5e5f3a533beba14f163a4bb982d474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 06/16] fix: matching more than 255 terms does not overflow the
 counter

---
 crates/mitex-parser/src/arg_match.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/arg_match.rs b/crates/mitex-parser/src/arg_match.rs
index cc96df1..320bf77 100644
--- a/crates/mitex-parser/src/arg_match.rs
+++ b/crates/mitex-parser/src/arg_match.rs
@@ -65,7 +65,7 @@ impl ArgMatcher {
                     return false;
                 }
                 let ct = *counter < *max;
-                *counter += 1;
+                *counter = counter.saturating_add(1);
                 ct
             }
             Self::Glob { ref re, prefix } => {
-- 
2.43.0


From 0fa853a34154536bbfc97f4da6b3eb2350e33ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 07/16] fix: commands in a script no longer wrap items outside
 of the script

---
 crates/mitex-parser/src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 063f13a..997439f 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -812,7 +812,11 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
 
         if has_script {
             self.trivia();
+            // The items before the component must not be wrapped from inside of it
+            let parent_state = self.list_state;
+            self.list_state = ListState::new(parent_state.scope);
             self.content(false);
+            self.list_state = parent_state;
         }
 
         self.builder.finish_node();
-- 
2.43.0


From 5cb5d30b6fd11730c8f8dc783c4c0df9a1978822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 08/16] fix: default output of compile is the input with the
 extension .typ

---
 crates/mitex-cli/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/lib.rs b/crates/mitex-cli/src/lib.rs
index d961afb..e51b134 100644
--- a/crates/mitex-cli/src/lib.rs
+++ b/crates/mitex-cli/src/lib.rs
@@ -227,7 +227,7 @@ fn process_opts(mut opts: Opts) -> Result<Opts, clap::Error> {
         }
         if args.output.is_empty() {
             std::path::Path::new(&args.input)
-                .with_extension("tex")
+                .with_extension("typ")
                 .to_str()
                 .ok_or_else(|| {
                     clap::Error::raw(
-- 
2.43.0


From a58657148108538f9a4450949dac2194b2bfae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 09/16] fix: commands and environments without their arguments
 no longer panic the converter

---
 crates/mitex/src/converter.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 32cc3c0..72951b0 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -495,11 +495,10 @@ impl Converter {
         let arg = cmd
             .arguments()
             .next()
-            .expect("\\label command must have one argument");
+            .ok_or_else(|| "\\label command must have one argument".to_owned())?;
         // remove { and } then trim
         let label = arg.text().to_string();
-        let label = &label[1..(label.len() - 1)];
-        let label = label.trim();
+        let label = strip_delimiters(&label, '{', '}');
         match self.env {
             LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate => {
                 if matches!(self.mode, LaTeXMode::Text) {
@@ -523,29 +522,27 @@ impl Converter {
     ) -> Result<(), ConvertError> {
         let opt_arg = cmd.arguments().find(|arg| {
             matches!(
-                arg.first_child().unwrap().kind(),
-                LatexSyntaxKind::ItemBracket
+                arg.first_child().map(|n| n.kind()),
+                Some(LatexSyntaxKind::ItemBracket)
             )
         });
         let arg = cmd
             .arguments()
             .find(|arg| {
                 matches!(
-                    arg.first_child().unwrap().kind(),
-                    LatexSyntaxKind::ItemCurly
+                    arg.first_child().map(|n| n.kind()),
+                    Some(LatexSyntaxKind::ItemCurly)
                 )
             })
-            .expect("\\includegraphics command must have one argument");
+            .ok_or_else(|| "\\includegraphics command must have one argument".to_owned())?;
         // remove { and } then trim
         let body = arg.text().to_string();
-        let body = &body[1..(body.len() - 1)];
-        let body = body.trim();
+        let body = strip_delimiters(&body, '{', '}');
         f.write_str("#image(")?;
         // optional arguments
         if let Some(opt_arg) = opt_arg {
             let arg_text = opt_arg.text().to_string();
-            let arg_text = &arg_text[1..(arg_text.len() - 1)];
-            let arg_text = arg_text.trim();
+            let arg_text = strip_delimiters(&arg_text, '[', ']');
             // example: \includegraphics[width=0.5\textwidth, height=3cm,
             // angle=45]{example-image} split by comma and convert
             // to key-value pairs
@@ -1016,7 +1013,7 @@ impl Converter {
                     let arg = cmd
                         .arguments()
                         .next()
-                        .expect("\\caption command must have one argument");
+                        .ok_or_else(|| "\\caption command must have one argument".to_owned())?;
                     caption = Some(arg);
                 }
             }
@@ -1062,11 +1059,10 @@ impl Converter {
         let arg = env
             .arguments()
             .next()
-            .expect("tabular environment must have one argument");
+            .ok_or_else(|| "tabular environment must have one argument".to_owned())?;
         let arg = arg.text().to_string();
         // remove { and } then trim
-        let arg = &arg[1..(arg.len() - 1)];
-        let arg = arg.trim();
+        let arg = strip_delimiters(&arg, '{', '}');
         // split arg to get alignments and vertical lines
         let mut alignments: Vec<char> = vec![];
         let mut vlines: Vec<usize> = vec![];
@@ -1190,6 +1186,13 @@ impl Converter {
     }
 }
 
+/// Remove the delimiters of a group, if present, then trim
+fn strip_delimiters(text: &str, open: char, close: char) -> &str {
+    let text = text.strip_prefix(open).unwrap_or(text);
+    let text = text.strip_suffix(close).unwrap_or(text);
+    text.trim()
+}
+
 struct TypstRepr {
     elem: LatexSyntaxElem,
     mode: LaTeXMode,
-- 
2.43.0


From a5355d27d5c64150a0012b253063fe2006a2ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 10/16] fix: an environment with a greedy argument pattern no
 longer panics the parser

---
 crates/mitex-parser/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 997439f..d651d17 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -549,7 +549,11 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
 
             let arg_shape = self.spec.get_env(env_name);
             let right_pat = match arg_shape.map(|cmd| &cmd.args) {
-                None | Some(ArgPattern::None | ArgPattern::FixedLenTerm { len: 0 }) => None,
+                // What a greedy environment takes is its body
+                None
+                | Some(
+                    ArgPattern::None | ArgPattern::FixedLenTerm { len: 0 } | ArgPattern::Greedy,
+                ) => None,
                 Some(pattern) => Some(pattern),
             };
             let searcher = right_pat.map(|right_pat| self.arg_matchers.start_match(right_pat));
-- 
2.43.0


From 3601fea7813b4af7f129567e2cca5ceaeb097987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 11/16] fix: macros in a skipped branch are neither defined nor
 expanded

---
 crates/mitex-lexer/src/macro_engine.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index d0fd582..c3e1cb2 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -419,6 +419,13 @@ impl<'a> MacroEngine<'a> {
                 Token::CommandName(CommandName::EndIf) => {
                     self.trapped_by_endif(ctx, token);
                 }
+                // no macro is defined or expanded in a branch that is skipped
+                Token::CommandName(CommandName::Generic | CommandName::BeginEnvironment)
+                    if self.reading_if.contains(&Some(IfState::LitFalse)) =>
+                {
+                    ctx.push_outer(token);
+                    ctx.next_token();
+                }
                 // a generic command token traps stream into a macro checking
                 //
                 // If it is a real macro, it will be expanded into tokens so parser is unaware of
-- 
2.43.0


From aa0e0fb7696b56d3abf568d7c1caa74094879b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 12/16] fix: conversion uses the specification that was given,
 as parsing does

---
 crates/mitex/src/converter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 72951b0..45fa54e 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1218,7 +1218,8 @@ pub fn convert_inner(
     spec: Option<CommandSpec>,
     do_parse: fn(input: &str, spec: CommandSpec) -> SyntaxNode,
 ) -> Result<String, String> {
-    let node = do_parse(input, spec.unwrap_or_else(|| DEFAULT_SPEC.clone()));
+    let spec = spec.unwrap_or_else(|| DEFAULT_SPEC.clone());
+    let node = do_parse(input, spec.clone());
     // println!("{:#?}", node);
     // println!("{:#?}", node.text());
     let mut output = String::new();
@@ -1227,7 +1228,7 @@ pub fn convert_inner(
     let repr = TypstRepr {
         elem: LatexSyntaxElem::Node(node),
         mode,
-        spec: DEFAULT_SPEC.clone(),
+        spec,
         error: err.clone(),
     };
     core::fmt::write(&mut output, format_args!("{}", repr)).map_err(|_| err.borrow().to_owned())?;
-- 
2.43.0


From 2eca5fb7ead003bc3bcb769b29130ef04fafac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 13/16] fix: \color without arguments is an error and not a
 panic

---
 crates/mitex/src/converter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 45fa54e..5825c99 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -604,7 +604,10 @@ impl Converter {
 
         // Parse arguments: (model, color, body)
         let (model, color, body) = if cmd_name == "\\color" {
-            let root = cmd.arguments().next().expect("greedy cmd has args");
+            let root = cmd
+                .arguments()
+                .next()
+                .ok_or_else(|| "\\color command must have arguments".to_owned())?;
             let mut iter = root.children_with_tokens().peekable();
 
             // Skip trivia
-- 
2.43.0


From c47e84c8d5cdce5bd9f6018402e64b89467ec912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 14/16] fix: a formula without its closing delimiter is not
 valid because a nested formula ends with one

---
 crates/mitex-parser/src/syntax.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-parser/src/syntax.rs b/crates/mitex-parser/src/syntax.rs
index 445c768..d3bff5e 100644
--- a/crates/mitex-parser/src/syntax.rs
+++ b/crates/mitex-parser/src/syntax.rs
@@ -255,8 +255,13 @@ impl FormulaItem {
 
     /// Checks whether the formula is valid
     pub fn is_valid(&self) -> bool {
-        self.syntax().first_token().is_some_and(|first_node| {
-            self.syntax().last_token().is_some_and(|last_node| {
+        // The delimiters are two children, tokens of nested items are not meant
+        let first = self.syntax().first_child_or_token();
+        let last = self.syntax().last_child_or_token();
+        let first = first.and_then(|node| node.into_token());
+        let last = last.and_then(|node| node.into_token());
+        first.is_some_and(|first_node| {
+            last.is_some_and(|last_node| {
                 if first_node.kind() == TokenDollar && last_node.kind() == TokenDollar {
                     return (first_node.text() == "$" && last_node.text() == "$")
                         || (first_node.text() == "$$" && last_node.text() == "$$");
-- 
2.43.0


From 31209b6ff2f3682124fab67d41eb7d989b3bd772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:03 +0000
Subject: [PATCH 15/16] fix: a table whose last row has no line end closes its
 last cell

---
 crates/mitex/src/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 5825c99..4461102 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1183,6 +1183,10 @@ impl Converter {
                 }
             }
         }
+        // close the last cell if its row does not end with `\\`
+        if !exterior {
+            f.write_str("],\n")?;
+        }
         f.write_str(");")?;
         self.exit_env(prev);
         Ok(())
-- 
2.43.0


From dd7605cd4a755f8579a0d21c74e0478c99aa9639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:16 +0000
Subject: [PATCH 16/16] fix: a label stays with its environment when another
 environment follows it inside

---
 crates/mitex/src/converter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 4461102..53d1ddf 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -879,6 +879,9 @@ impl Converter {
             return Ok(());
         }
 
+        // a label set before belongs to an enclosing environment
+        let outer_label = self.label.take();
+
         // is environment for math
         let is_math_env = matches!(
             env_kind,
@@ -976,6 +979,9 @@ impl Converter {
                 self.label = None;
             }
         }
+        if self.label.is_none() {
+            self.label = outer_label;
+        }
 
         Ok(())
     }
-- 
2.43.0

