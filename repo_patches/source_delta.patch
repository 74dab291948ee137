From ff477c0654e05f0fb28801ea11c1a4f22014748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:57 +0000
Subject: [PATCH 01/56] verif: read-only accessors behind --cfg hastur_verif

---
 src/lib.rs         |  2 ++
 src/verif_hooks.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 06331ef..cf07b16 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -41,6 +41,8 @@ pub mod pattern;
 pub mod source_location;
 pub mod traits;
 mod types;
+#[cfg(hastur_verif)]
+pub mod verif_hooks;
 
 pub use crate::eval::{Flavor, Origin, Variable, VariableParameters};
 pub use crate::parsers::ParserCompliance;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..65303c7
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,41 @@
+//! Read-only accessors (and two constructors) for out-of-tree verification
+//! harnesses. Only compiled with `--cfg hastur_verif`; nothing in the crate
+//! uses this module.
+use crate::ast::AstNode;
+use crate::source_location::{LocatedString, Location};
+use crate::{Command, FileName, Flavor, Origin, Rule, RuleType, Variable, VariableParameters};
+
+/// The deferred, unexpanded text of a recipe line
+pub fn command_ast(command: &Command) -> &AstNode {
+    &command.unexpanded_command
+}
+
+/// The type of a rule
+pub fn rule_type(rule: &Rule) -> RuleType {
+    rule.rule_type
+}
+
+/// The interned dependency names of a rule
+pub fn rule_dep_names(rule: &Rule) -> Vec<FileName> {
+    rule.dep_names.iter().map(|x| *x).collect()
+}
+
+/// The flavor of a variable
+pub fn variable_flavor(variable: &Variable) -> Flavor {
+    variable.value.flavor
+}
+
+/// The origin of a variable
+pub fn variable_origin(variable: &Variable) -> Origin {
+    variable.value.origin
+}
+
+/// Build variable parameters
+pub fn variable_parameters(value: AstNode, flavor: Flavor, origin: Origin) -> VariableParameters {
+    VariableParameters::new(value, flavor, origin)
+}
+
+/// Build a string located at an arbitrary place
+pub fn located_string(location: Location, contents: &str) -> LocatedString {
+    LocatedString::new(location.into(), contents.into())
+}
-- 
2.43.0


From 1aeda29a711e80931f914ffcfae6e992d6c5bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:46 +0000
Subject: [PATCH 02/56] fix: end a logical line at its own line break, not at a
 later comment

makefile_grab_line looked for '#' in all of the remaining input before
looking for a line break, so a comment further down the file swallowed
every line in between. It also left the '\r' of a Windows line ending in
the line.
---
 src/parsers/mod.rs | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index d5960db..88de7d0 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -320,20 +320,36 @@ where
         + nom::InputLength
         + nom::FindSubstring<&'static str>,
 {
-    fix_error!(
-        input,
-        ParseErrorKind,
-        alt_complete!(
-            take_until!("#") =>
-                { |l| (l, LineEndReason::Comment) }  |  // Comments
-            terminated!(take_until!("\n"), tag!("\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // UNIX line endings
-            terminated!(take_until!("\r\n"), tag!("\r\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // Windows line endings
-            nom::rest =>
-                { |l| (l, LineEndReason::EOF) }         // EOF
-        )
-    )
+    // The line stops at whichever of these comes first, not just at the first
+    // comment anywhere in the input.
+    let mut previous = None;
+    for (idx, c) in input.iter_indices() {
+        match c {
+            // Comments
+            '#' => {
+                return Ok((
+                    input.slice(idx..),
+                    (input.slice(..idx), LineEndReason::Comment),
+                ));
+            }
+            // UNIX (`\n`) and Windows (`\r\n`) line endings
+            '\n' => {
+                let line_end = if previous == Some('\r') { idx - 1 } else { idx };
+                return Ok((
+                    input.slice(idx + 1..),
+                    (input.slice(..line_end), LineEndReason::LineBreak),
+                ));
+            }
+            _ => previous = Some(c),
+        }
+    }
+
+    // EOF
+    let length = input.input_len();
+    Ok((
+        input.slice(length..),
+        (input.slice(..length), LineEndReason::EOF),
+    ))
 }
 
 named!(
-- 
2.43.0


From 0d231376eb3bfbf7df0f77fcd42dd6078253f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:04 +0000
Subject: [PATCH 03/56] fix: store define bodies verbatim, one line at a time

A '#' anywhere after the current line of a define body swallowed the lines
up to it, endef included, and a comment within the body was dropped along
with its line break.
---
 src/parsers/mod.rs          | 13 ++++++++-----
 src/parsers/variable/mod.rs | 24 ++++++++++++------------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 88de7d0..c5240ef 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -153,11 +153,14 @@ impl ParserState {
         // TODO: validate that this is actually always an OK way to handle this,
         // since it diverges slightly from the GNU make behavior (which has
         // bespoke comment processing sprinkled through every other case)
-        run_parser!(comment::parse_comment_following_whitespace(i), |_| {
-            // Comment lines don't require any particular action
-            info!("Skipping over comment line");
-            Ok(())
-        });
+        // Lines inside a define are stored verbatim, so those can't be comments.
+        if self.current_define.is_none() {
+            run_parser!(comment::parse_comment_following_whitespace(i), |_| {
+                // Comment lines don't require any particular action
+                info!("Skipping over comment line");
+                Ok(())
+            });
+        }
 
         if self.currently_processing_rule() {
             // We only check for command lines when we can reasonably expect
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 117d1d1..3234799 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -377,21 +377,19 @@ fn parse_variable_assignment<'a>(
 pub(crate) fn parse_define_line<'a>(
     i: BlockSpan<'a>,
 ) -> IResult<BlockSpan<'a>, DefineLine, ParseErrorKind> {
+    use nom::{InputIter, InputTake};
+
     // This parser operates outside of the context of things that have already grabbed lines
     // TODO: maybe just grab a whole define in here? Don't bother with trying to
     // round-trip it through the processing function above
     // This also uses a specialized version of makefile_grab_line, since we
-    // actually need the line endings to stay intact.
-    let (next_lines, i) = fix_error!(
-        i,
-        ParseErrorKind,
-        alt_complete!(
-            take_until!("#") | // Comments
-                recognize!(terminated!(take_until!("\n"), tag!("\n"))) | // UNIX line endings
-                recognize!(terminated!(take_until!("\r\n"), tag!("\r\n"))) | // Windows line endings
-                nom::rest // EOF
-        )
-    )?;
+    // actually need the line endings to stay intact. Comments are part of the
+    // text being defined, so they don't end the line.
+    let line_length = i
+        .iter_indices()
+        .find(|&(_, c)| c == '\n')
+        .map_or(i.len(), |(idx, _)| idx + 1);
+    let (next_lines, i) = i.take_split(line_length);
 
     debug!("Parsing define line {:?}", i.into_string());
     let location = i.location().expect("There should be content on the line");
@@ -410,7 +408,9 @@ pub(crate) fn parse_define_line<'a>(
     )?;
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
 
-    if action == DefineLineAction::DecreaseNesting && i.len() != 0 {
+    // Only a comment may follow an endef
+    let extra_tokens = i.len() != 0 && i.chars().next() != Some('#');
+    if action == DefineLineAction::DecreaseNesting && extra_tokens {
         return super::fail_out(i, ParseErrorKind::ExtraTokensAfter("endef"));
     }
 
-- 
2.43.0


From a3047b214ff25689f45d3959f8f2288df9508cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 04/56] fix: report parse errors from process_block instead of
 panicking

Any malformed line hit unimplemented!(), although the signature promises a
MakefileError.
---
 src/lib.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cf07b16..81badc7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -127,6 +127,22 @@ pub enum ParseErrorKind {
     InternalFailure(&'static str),
 }
 
+impl ParseErrorKind {
+    /// Pick the error to report to the user out of everything nom collected.
+    /// The outermost error of ours is the one that describes the line best.
+    fn from_context<I: Clone>(context: &nom::Context<I, ParseErrorKind>) -> ParseErrorKind {
+        let errors = nom::error_to_list(context);
+        let reported = errors.iter().find_map(|(_, kind)| match kind {
+            nom::ErrorKind::Custom(kind) => Some(kind.clone()),
+            _ => None,
+        });
+        reported.unwrap_or_else(|| match errors.first() {
+            Some((_, kind)) => ParseErrorKind::NomError(nom::error_to_u32(kind)),
+            None => ParseErrorKind::InternalFailure("no error recorded"),
+        })
+    }
+}
+
 impl<'a> From<u32> for ParseErrorKind {
     fn from(other: u32) -> ParseErrorKind {
         ParseErrorKind::NomError(other)
@@ -582,9 +598,16 @@ impl Engine {
         while i.len() > 0 {
             let (new_i, _) = match parser_state.parse_line(i, names, self) {
                 Ok(v) => v,
-                Err(NErr::Failure(_)) => unimplemented!("Unrecoverable line parsing failure"),
-                Err(NErr::Incomplete(_)) => unimplemented!("incomplete line"),
-                Err(NErr::Error(_)) => unimplemented!("Recoverable line parsing failure"),
+                Err(NErr::Incomplete(_)) => {
+                    return Err(MakefileError::ParseError(ParseErrorKind::InternalFailure(
+                        "incomplete line",
+                    )));
+                }
+                Err(NErr::Failure(context)) | Err(NErr::Error(context)) => {
+                    return Err(MakefileError::ParseError(ParseErrorKind::from_context(
+                        &context,
+                    )));
+                }
             };
 
             i = new_i;
-- 
2.43.0


From 919846edd98575ecbb87dc1249a69d8ad70d98f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:47 +0000
Subject: [PATCH 05/56] fix: keep the rule that is still open at the end of the
 input

A rule was only added to the database by the line that followed it, so the
last rule of every makefile, include and eval was lost.
---
 src/lib.rs         | 3 +++
 src/parsers/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 81badc7..a9f65e4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -613,6 +613,9 @@ impl Engine {
             i = new_i;
         }
 
+        // The end of the input ends the last rule too
+        parser_state.close_rule(names, self);
+
         Ok(())
     }
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index c5240ef..bacaba8 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -290,7 +290,7 @@ impl ParserState {
     }
 
     /// Close out the currently open rule, if there is one
-    fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
+    pub(crate) fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
         debug!("Closing rule {:?}", self.current_rule);
         let current_rule = std::mem::replace(&mut self.current_rule, None);
         match current_rule {
-- 
2.43.0


From c26d27b78ef73b3ff8b9a3f67217d3a6487a669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:48 +0000
Subject: [PATCH 06/56] fix: resume interpretation after an endif

endif popped the conditional but left the ignoring flag as it was, so
everything after a conditional that ended in a dead branch was skipped.
---
 src/parsers/conditional/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index b3ece0d..33310e3 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -94,6 +94,7 @@ impl crate::parsers::ParserState {
                     return Err(ParseErrorKind::UnattachedEndIf);
                 }
                 self.conditionals.pop();
+                self.update_ignoring();
 
                 Ok(())
             }
-- 
2.43.0


From 32d0022d1531e07c05d6784a2116ea5ec8a19843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:09 +0000
Subject: [PATCH 07/56] fix: drop recipe lines in the untaken branch of a
 conditional

Recipe lines are recognised before the ignoring check, so both branches of a
conditional inside a recipe ended up in the rule.
---
 src/parsers/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index bacaba8..a7cc73a 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -167,8 +167,11 @@ impl ParserState {
             // that we're currently processing a recipe
             run_parser!(recipe_line(i, engine.command_char), |line| {
                 // Push the line. This is safe since we only run this parser if
-                // we're currently processing a rule
-                self.push_command_line(line);
+                // we're currently processing a rule. Lines in the untaken
+                // branch of a conditional aren't part of the recipe.
+                if !self.ignoring {
+                    self.push_command_line(line);
+                }
                 Ok(())
             });
         } else if self.current_define.is_some() {
-- 
2.43.0


From 4c6c1ce7b8e8f5c06d7001516873a976eabfc150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:10 +0000
Subject: [PATCH 08/56] fix: don't expand conditionals nested in an untaken
 branch

Their arguments may contain an eval, whose assignments and rules would then
take effect although the branch is not taken.
---
 src/parsers/conditional/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 33310e3..45bbb4c 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -42,6 +42,16 @@ impl crate::parsers::ParserState {
     ) -> Result<(), ParseErrorKind> {
         let conditional_is_inverted = conditional.is_inverted();
         match conditional {
+            Conditional::IfEq(_, _) | Conditional::IfNEq(_, _) if self.ignoring => {
+                // Text in an untaken branch is never expanded. We only need to
+                // know about this conditional to match up the else and endif.
+                self.conditionals.push(super::ConditionalState {
+                    interpretation: super::ConditionalInterpretation::NotExecuting,
+                    seen_else: false,
+                });
+
+                Ok(())
+            }
             Conditional::IfEq(a, b) | Conditional::IfNEq(a, b) => {
                 let a = a.eval(names, engine);
                 let b = b.eval(names, engine);
-- 
2.43.0


From 5f46b9bc0f60488f878ce08e82dc74b2ea801c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 09/56] fix: recognise ${name} references

The parser looked for a closing brace after the dollar sign, so ${name} was
read as a reference to the variable '{' followed by text.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index 5c9eda9..fb17cb2 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -82,7 +82,7 @@ fn parse_var_ref<'a>(
         // Try the advanced variable references
         preceded!(fix_error!(ParseErrorKind, char!('(')),
                   apply!(advanced_var, dollar_location.clone(), '(', ')')) => { |l| l } |
-        preceded!(fix_error!(ParseErrorKind, char!('}')),
+        preceded!(fix_error!(ParseErrorKind, char!('{')),
                   apply!(advanced_var, dollar_location.clone(), '{', '}')) => { |l| l } |
         // Finally, just grab a single character and call it good
         fix_error!(ParseErrorKind, take!(1)) => {{
-- 
2.43.0


From e2d2d8b8e812bfb6ded307c951f66ef9f6389d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:35 +0000
Subject: [PATCH 10/56] fix: keep the text that follows a function call

The span returned after a call was what was left of its arguments, so
everything after the call on the line was dropped.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index fb17cb2..b57c5bd 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -123,7 +123,7 @@ fn advanced_var<'a>(
     let name_node = name_node.slice(..name_node.len() - 1);
 
     match function_call(name_node, dollar_location.clone()) {
-        Ok(v) => Ok(v),
+        Ok((_, node)) => Ok((i, node)),
         Err(Err::Failure(context)) => {
             if context.clone().into_error_kind()
                 == nom::ErrorKind::Custom(ParseErrorKind::InternalFailure("not a function call"))
-- 
2.43.0


From 375b67f4dc22ac0863e9cbfaf8b6b6cb0d0f7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:37 +0000
Subject: [PATCH 11/56] fix: a function name has to be followed by whitespace

many1!(makefile_whitespace) also succeeds on no whitespace at all, so a
reference to a variable such as words_list was read as a call of words.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index b57c5bd..f688ee0 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -161,7 +161,7 @@ fn function_call<'a>(
                 $i,
                 do_parse!(
                     pe_fix!(tag!($t))
-                        >> many1!(makefile_whitespace)
+                        >> pe_fix!(take_while1!(|c| c == ' ' || c == '\t'))
                         >> parsed: apply!($f, dollar_location.clone())
                         >> (parsed)
                 )
-- 
2.43.0


From 0c33717e139ec277bdbb1f1d686ce9e2c45088c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:01 +0000
Subject: [PATCH 12/56] fix: ?= leaves a variable that is already set alone

---
 src/parsers/variable/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 3234799..ea65c00 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -96,6 +96,13 @@ impl crate::parsers::ParserState {
         }
 
         match action.action {
+            Action::Define(ref parameters)
+                if parameters.flavor == Flavor::Conditional
+                    && !action.modifiers.define
+                    && engine.database.get_variable(action.name).is_some() =>
+            {
+                debug!("Variable {:?} is already set, keeping it", action.name);
+            }
             Action::Define(parameters) => {
                 engine.database = engine.database.set_variable(action.name, parameters);
             }
-- 
2.43.0


From 9a7a47f91382e3a79076173da8bc90a9cdde74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:03 +0000
Subject: [PATCH 13/56] fix: accept := and ::= assignments of an empty value

---
 src/parsers/variable/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index ea65c00..d671f74 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -348,10 +348,10 @@ fn parse_variable_assignment<'a>(
     if assignment_type == AssignmentType::Simple {
         // Evaluate the value AST
         let contents = value_ast.eval(names, context);
-        let location = value_segment
-            .location()
-            .expect("value segment should have nonzero length");
-        value_ast = ast::preevaluated(location.into(), contents);
+        // If there is no value at all, there is nothing to expand either
+        if let Some(location) = value_segment.location() {
+            value_ast = ast::preevaluated(location.into(), contents);
+        }
     }
 
     // TODO: the origin reported here is not necessarily correct. We need to
-- 
2.43.0


From 50ebd266bd053ddb022260c67eafcdb55fd71d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 14/56] fix: += expands the text appended to a simple variable
 immediately

---
 src/parsers/variable/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index d671f74..4142ece 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -345,7 +345,15 @@ fn parse_variable_assignment<'a>(
     let variable_name = variable_name.into_string().trim().into();
     let variable_name = names.intern_variable_name(variable_name);
 
-    if assignment_type == AssignmentType::Simple {
+    // Appending to a simply expanded variable expands the new text right away,
+    // just like the assignment that created the variable did.
+    let appends_to_simple = assignment_type == AssignmentType::Append
+        && context
+            .database
+            .get_variable(variable_name)
+            .map_or(false, |var| var.value.flavor == Flavor::Simple);
+
+    if assignment_type == AssignmentType::Simple || appends_to_simple {
         // Evaluate the value AST
         let contents = value_ast.eval(names, context);
         // If there is no value at all, there is nothing to expand either
-- 
2.43.0


From 1bafcdc0530734b04cdbd05134d4b2ebd8409a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:48 +0000
Subject: [PATCH 15/56] fix: keywords have to be whole words

A target or variable whose name merely starts with a keyword (include_dir,
elsewhere, define_me, ...) was taken for the directive.
---
 src/parsers/conditional/mod.rs | 35 ++++++++++++++++++++--------------
 src/parsers/directives/mod.rs  | 23 ++++++++++++++--------
 src/parsers/mod.rs             | 11 +++++++++++
 src/parsers/variable/mod.rs    | 16 +++++++++-------
 4 files changed, 56 insertions(+), 29 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 45bbb4c..e23fcc8 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -2,7 +2,7 @@
 
 // #SPC-P-Conditional
 
-use super::makefile_whitespace;
+use super::{makefile_whitespace, makefile_word_end};
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
@@ -146,23 +146,30 @@ fn parse_line_internal<'a>(
         makefile_whitespace,
         add_return_error!(
             ErrorKind::Custom(ParseErrorKind::ConditionalExpected),
-            terminated!(
-                fix_error!(
-                    ParseErrorKind,
-                    alt_complete!(
-                        tag_no_case!("ifdef") => { |_| ConditionalType::IfDef } |
-                        tag_no_case!("ifndef") => { |_| ConditionalType::IfNDef } |
-                        tag_no_case!("ifeq") => { |_| ConditionalType::IfEq } |
-                        tag_no_case!("ifneq") => { |_| ConditionalType::IfNEq } |
-                        tag_no_case!("else") => { |_| ConditionalType::Else } |
-                        tag_no_case!("endif") => { |_| ConditionalType::EndIf }
-                    )
-                ),
-                makefile_whitespace
+            fix_error!(
+                ParseErrorKind,
+                alt_complete!(
+                    tag_no_case!("ifdef") => { |_| ConditionalType::IfDef } |
+                    tag_no_case!("ifndef") => { |_| ConditionalType::IfNDef } |
+                    tag_no_case!("ifeq") => { |_| ConditionalType::IfEq } |
+                    tag_no_case!("ifneq") => { |_| ConditionalType::IfNEq } |
+                    tag_no_case!("else") => { |_| ConditionalType::Else } |
+                    tag_no_case!("endif") => { |_| ConditionalType::EndIf }
+                )
             )
         )
     )?;
 
+    // Something like `else_target` or `endifs` merely starts with the keyword.
+    // The arguments of an ifeq are delimited, so those don't need a space.
+    let delimiter = input.chars().next();
+    let is_delimited_ifeq = (tag == ConditionalType::IfEq || tag == ConditionalType::IfNEq)
+        && (delimiter == Some('(') || delimiter == Some('"') || delimiter == Some('\''));
+    if !is_delimited_ifeq {
+        makefile_word_end(input)?;
+    }
+    let (input, _) = makefile_whitespace(input)?;
+
     debug!("Tag is {:?}", tag);
     debug!("Rest is {:?}", input.into_string());
 
diff --git a/src/parsers/directives/mod.rs b/src/parsers/directives/mod.rs
index 81e893a..1f12ff2 100644
--- a/src/parsers/directives/mod.rs
+++ b/src/parsers/directives/mod.rs
@@ -2,6 +2,7 @@
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
+use crate::parsers::makefile_word_end;
 use crate::{Engine, NameCache, ParseErrorKind};
 use nom::IResult;
 
@@ -94,17 +95,23 @@ impl crate::parsers::ParserState {
 }
 
 pub(crate) fn parse_line<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, Action, ParseErrorKind> {
+    macro_rules! keyword(
+        ($i:expr, $keyword:literal) => {
+            terminated!($i, pe_fix!(tag_no_case!($keyword)), makefile_word_end)
+        };
+    );
+
     pe_fix!(
         i,
         alt!(
-            preceded!(pe_fix!(tag_no_case!("export")), parse_ast) => { Action::Export }     |
-            preceded!(pe_fix!(tag_no_case!("unexport")), parse_ast) => { Action::Unexport } |
-            preceded!(pe_fix!(tag_no_case!("vpath")), parse_ast) => { Action::VPath }       |
-            preceded!(pe_fix!(tag_no_case!("include")), parse_ast) => { Action::Include }   |
-            preceded!(pe_fix!(tag_no_case!("sinclude")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("-include")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("load")), parse_ast) => { Action::Load }         |
-            preceded!(pe_fix!(tag_no_case!("-load")), parse_ast) => { Action::SoftLoad }
+            preceded!(keyword!("export"), parse_ast) => { Action::Export }     |
+            preceded!(keyword!("unexport"), parse_ast) => { Action::Unexport } |
+            preceded!(keyword!("vpath"), parse_ast) => { Action::VPath }       |
+            preceded!(keyword!("include"), parse_ast) => { Action::Include }   |
+            preceded!(keyword!("sinclude"), parse_ast) => { Action::SoftInclude }|
+            preceded!(keyword!("-include"), parse_ast) => { Action::SoftInclude }|
+            preceded!(keyword!("load"), parse_ast) => { Action::Load }         |
+            preceded!(keyword!("-load"), parse_ast) => { Action::SoftLoad }
         )
     )
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index a7cc73a..de8e35d 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -371,6 +371,17 @@ fn makefile_whitespace<T: nom::InputTakeAtPosition<Item = char>>(
     fix_error!(input, ParseErrorKind, take_till!(|c| c != ' ' && c != '\t'))
 }
 
+/// Succeeds, without consuming anything, if the input is at the end of a word.
+/// Keywords use this to make sure they aren't just the prefix of a longer word.
+fn makefile_word_end<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
+    match i.chars().next() {
+        Some(c) if !c.is_whitespace() => {
+            error_out(i, ParseErrorKind::InternalFailure("not at the end of a word"))
+        }
+        _ => Ok((i, ())),
+    }
+}
+
 /// Capture the next token in the input
 #[inline]
 pub fn makefile_token<T>(input: T) -> IResult<T, T, ParseErrorKind>
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 4142ece..e193010 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -1,7 +1,7 @@
 //! Parser for variable definitions
 
 // #SPC-P-Variable
-use super::{error_out, makefile_whitespace};
+use super::{error_out, makefile_whitespace, makefile_word_end};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
@@ -208,7 +208,7 @@ pub(crate) fn parse_line<'a>(
                 pe_complete!(pe_fix!(tag_no_case!("private"))) => { |_| Modifier::Private } |
                 pe_complete!(pe_fix!(tag_no_case!("undefine"))) => { |_| Modifier::Undefine }
             ),
-            makefile_whitespace
+            preceded!(makefile_word_end, makefile_whitespace)
         ) {
             Ok(b) => b,
             Err(_) => {
@@ -414,11 +414,13 @@ pub(crate) fn parse_define_line<'a>(
         i,
         preceded!(
             makefile_whitespace,
-            pe_fix!(alt!(
-                tag!("define") => { |_|  DefineLineAction::IncreaseNesting} |
-                tag!("endef") => { |_|  DefineLineAction::DecreaseNesting}  |
-                nom::rest => { |_|  DefineLineAction::Append}
-            ))
+            alt!(
+                terminated!(pe_fix!(tag!("define")), makefile_word_end) =>
+                    { |_|  DefineLineAction::IncreaseNesting} |
+                terminated!(pe_fix!(tag!("endef")), makefile_word_end) =>
+                    { |_|  DefineLineAction::DecreaseNesting}  |
+                pe_fix!(nom::rest) => { |_|  DefineLineAction::Append}
+            )
         )
     )?;
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
-- 
2.43.0


From b0ce84cb7c5ab2ec0c1877733c075d0b8fa3e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:23 +0000
Subject: [PATCH 16/56] fix: iterate over references and spans by byte offset

Offsets and lengths of content references and spans are in bytes, but the
character iterators skipped and took that many characters, which is wrong as
soon as the text contains a multi-byte character.
---
 src/evaluated/block_span.rs        | 17 ++++++++++-------
 src/evaluated/content_reference.rs | 23 ++++++++++++++++++++---
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index d96033f..3581094 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -148,7 +148,6 @@ pub struct Iter<'a> {
 
 #[derive(Clone, Debug)]
 enum BlockSpanCharIteratorInternal<'a> {
-    SkippedContentReference(std::iter::Skip<super::content_reference::ContentReferenceIter<'a>>),
     ContentReference(super::content_reference::ContentReferenceIter<'a>),
     NullIter(std::str::Chars<'a>),
 }
@@ -157,9 +156,15 @@ impl<'a> Iter<'a> {
     fn new(parent: &BlockSpan<'a>) -> Self {
         let mut cons_iter = parent.contents.iter();
         let char_iter: Box<BlockSpanCharIteratorInternal<'a>> = match cons_iter.next() {
-            Some(x) => Box::new(BlockSpanCharIteratorInternal::SkippedContentReference(
-                x.chars().skip(parent.offset),
-            )),
+            Some(x) => {
+                // The offset is in bytes, not characters
+                let mut chars = x.chars();
+                let mut skipped_bytes = 0;
+                while skipped_bytes < parent.offset {
+                    skipped_bytes += chars.next().map_or(parent.offset, char::len_utf8);
+                }
+                Box::new(BlockSpanCharIteratorInternal::ContentReference(chars))
+            }
             None => Box::new(BlockSpanCharIteratorInternal::NullIter("".chars())),
         };
         Self {
@@ -183,7 +188,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
         }
 
         let mut tr = match self.char_iter.borrow_mut() {
-            BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
         };
@@ -192,8 +196,7 @@ impl<'a> std::iter::Iterator for Iter<'a> {
                 (*self.cons_iter.next()?).chars(),
             ));
             tr = match self.char_iter.borrow_mut() {
-                BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
-                BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
+                    BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
             };
         }
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 899cacc..2533c3e 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -72,7 +72,16 @@ impl ContentReference {
 
     /// Iterate over the characters in this content reference
     pub fn chars(&self) -> ContentReferenceIter {
-        ContentReferenceIter(self.node.chars().skip(self.offset).take(self.length))
+        // Both the offset and the length are in bytes, not characters
+        let mut chars = self.node.chars();
+        let mut skipped_bytes = 0;
+        while skipped_bytes < self.offset {
+            skipped_bytes += chars.next().map_or(self.offset, char::len_utf8);
+        }
+        ContentReferenceIter {
+            chars,
+            remaining_bytes: self.length,
+        }
     }
 
     /// Iterate over the character indices in this content reference
@@ -137,13 +146,21 @@ impl ContentReference {
 
 /// An iterator over the characters in a content reference
 #[derive(Clone, Debug)]
-pub struct ContentReferenceIter<'a>(std::iter::Take<std::iter::Skip<super::nodes::Chars<'a>>>);
+pub struct ContentReferenceIter<'a> {
+    chars: super::nodes::Chars<'a>,
+    remaining_bytes: usize,
+}
 
 impl<'a> Iterator for ContentReferenceIter<'a> {
     type Item = char;
 
     fn next(&mut self) -> Option<char> {
-        self.0.next()
+        if self.remaining_bytes == 0 {
+            return None;
+        }
+        let tr = self.chars.next()?;
+        self.remaining_bytes -= tr.len_utf8();
+        Some(tr)
     }
 }
 
-- 
2.43.0


From 185d1d3a17b7ba79adb47f48a576fb0882aeb713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 17/56] fix: positions in spans are byte offsets for multi-byte
 text too

position() and slice_index() counted characters, and find_substring()
indexed past the end of its window buffer.
---
 src/evaluated/nom/mod.rs | 66 ++++++----------------------------------
 1 file changed, 10 insertions(+), 56 deletions(-)

diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index a7aebd5..a8f4c1b 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -32,16 +32,19 @@ impl<'a> InputIter for BlockSpan<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.iter_elements().position(predicate)
+        // Positions are byte offsets
+        self.iter_indices()
+            .find(|&(_, c)| predicate(c))
+            .map(|(i, _)| i)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Option<usize> {
-        if self.length >= count {
-            Some(count)
-        } else {
-            None
-        }
+        // Turns a number of characters into a byte offset
+        self.iter_indices()
+            .map(|(i, _)| i)
+            .chain(std::iter::once(self.length))
+            .nth(count)
     }
 }
 
@@ -194,56 +197,7 @@ impl<'a, 'b> FindSubstring<&'b str> for BlockSpan<'a> {
             return None;
         }
 
-        let substr_bytes = substr.as_bytes();
-        let mut buffer = Vec::with_capacity(substr.len());
-        let mut char_buffer = [0, 0, 0, 0];
-        buffer.resize_with(substr.len(), || 0);
-
-        let mut self_iter = self.iter_indices();
-        let mut self_idx = 0;
-        let mut buffer_start = 0;
-
-        while self_idx < substr.len() {
-            let content = self_iter.next().unwrap();
-            let char_size = content.1.encode_utf8(&mut char_buffer).len();
-            for i in 0..char_size {
-                buffer[self_idx + i] = char_buffer[i];
-            }
-            self_idx = content.0 + char_size;
-        }
-
-        if buffer == substr.as_bytes() {
-            return Some(0);
-        }
-
-        for (i, c) in self_iter {
-            // debug!(
-            //     "Inspecting {:?} for match with {:?} {:?}",
-            //     c,
-            //     substr.as_bytes(),
-            //     buffer
-            // );
-            // // Update the buffer
-            let char_size = c.encode_utf8(&mut char_buffer).len();
-            for j in 0..char_size {
-                buffer[(buffer_start + j) % substr.len()] = char_buffer[j];
-            }
-            buffer_start = (buffer_start + char_size) % substr.len();
-            // attempt to match the current buffer against the substring
-            let mut all_match = true;
-            for j in 0..substr.len() {
-                if buffer[(buffer_start + j) % substr.len()] != substr_bytes[j] {
-                    all_match = false;
-                    break;
-                }
-            }
-            if all_match {
-                debug!("Match found at {:?}", i - substr.len());
-                return Some(i - substr.len() + 1);
-            }
-        }
-
-        None
+        self.into_string().find(substr)
     }
 }
 
-- 
2.43.0


From 7706d3c1d50e73e6d74a975ddc4188d5bea2c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:20 +0000
Subject: [PATCH 18/56] fix: step over multi-byte characters when splitting
 words and stop characters

---
 src/parsers/mod.rs         |  6 +++---
 src/parsers/targets/mod.rs | 16 +++++++---------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index de8e35d..a65c93f 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -429,7 +429,7 @@ where
             debug!("Found stopchar at index {:?}", idx);
             // We found a stopchar. Push the previous span and figure out if it
             // actually matches
-            stop_character = Some(i.slice(idx..idx + 1));
+            stop_character = Some(i.slice(idx..idx + ch.len_utf8()));
 
             // slash count examples:
             //  0 1 2 3
@@ -451,12 +451,12 @@ where
                 // Even number of slashes. Push half of them, indicate that we
                 // found the stopchar, and then break out
                 Arc::make_mut(&mut tr).push_all_contents(i.slice(next_push_start..end_idx));
-                stopchar_index = idx;
+                stopchar_index = idx + ch.len_utf8() - 1;
                 break;
             }
         }
         if ch != '\\' {
-            last_nonslash_idx = idx as isize;
+            last_nonslash_idx = (idx + ch.len_utf8() - 1) as isize;
         }
     }
 
diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index f9e72e6..f6dd289 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -444,7 +444,7 @@ fn next_mword<'a>(
 
     while let Some((idx, chr)) = char_iter.next() {
         debug!("inspect {:?} at {:?}", chr, idx);
-        stop_index = idx + 1;
+        stop_index = idx + chr.len_utf8();
 
         if chr == ' ' || chr == '\t' || chr == '=' {
             end_reason = MWordEnd::Static;
@@ -464,7 +464,7 @@ fn next_mword<'a>(
         if chr == '$' {
             // This is probably a variable reference of some sort
             if let Some((idx, chr)) = char_iter.next() {
-                stop_index = idx + 1;
+                stop_index = idx + chr.len_utf8();
                 if chr == '$' {
                     // Consume the character
                     // This is just a double '$', does not end the word
@@ -486,7 +486,7 @@ fn next_mword<'a>(
 
                 let mut count = 1;
                 while let Some((idx, chr2)) = char_iter.next() {
-                    stop_index = idx + 1;
+                    stop_index = idx + chr2.len_utf8();
                     if chr2 == chr {
                         count += 1;
                     } else if chr2 == brace_end {
@@ -598,12 +598,10 @@ fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'
                     }
                 } else {
                     // There were at least 2 prior characters, grab them
-                    let pre_slice = pre.span().slice(pre.len() - 2..);
-                    assert!(pre_slice.len() == 2);
-                    let (ch1, ch2) = {
-                        let mut iter = pre_slice.iter_elements();
-                        (iter.next().unwrap(), iter.next().unwrap())
-                    };
+                    let (ch1, ch2) = pre
+                        .span()
+                        .iter_elements()
+                        .fold(('\0', '\0'), |(_, ch1), ch2| (ch1, ch2));
                     // Check condition 1 and 2
                     if !ch1.is_alphabetic() || !(ch2.is_whitespace() || ch2 == '(') {
                         // Condition 1 or 2 failed, not a drive spec
-- 
2.43.0


From 313a5b7dc4a955257df4943b272168ea91ba542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:22 +0000
Subject: [PATCH 19/56] fix: a continuation removes only its own backslash and
 the blanks before it

Backslashes further left were dropped too, an all-blank line left a blank
behind, and a multi-byte character at the end of the text was cut in half.
---
 src/parsers/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index a65c93f..e613178 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -548,15 +548,16 @@ pub(crate) fn makefile_line(
                         s.slice(0..0)
                     } else {
                         // In GNU mode we strip off all the whitespace and the backslash
-                        let mut last_non_whitespace = 0;
+                        *s = s.slice(..s.len() - 1);
+                        let mut content_end = 0;
                         for (i, c) in s.char_indices() {
-                            if c == ' ' || c == '\t' || c == '\\' {
+                            if c == ' ' || c == '\t' {
                                 continue;
                             }
-                            last_non_whitespace = i;
+                            content_end = i + c.len_utf8();
                         }
 
-                        s.slice(..last_non_whitespace + 1)
+                        s.slice(..content_end)
                     }
                 }
             }
-- 
2.43.0


From 50365e39721d8ef88fedd210c74283d70a3feb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:37 +0000
Subject: [PATCH 20/56] fix: skip segments that end exactly at the offset

Slicing such a segment at its own length fails an assertion.
---
 src/evaluated/block_span.rs        | 2 +-
 src/evaluated/content_reference.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index 3581094..3ea4b30 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -288,7 +288,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
 
     fn next(&mut self) -> Option<crate::source_location::LocatedStr<'a>> {
         let mut tr = self.next_span()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.next_span()?;
         }
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 2533c3e..fa7cbeb 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -201,7 +201,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
         }
 
         let mut tr = self.internal.next()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.internal.next()?;
         }
-- 
2.43.0


From a3a6e5b48c75e56e8c91bf6453b3cfa4a0b85d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:39 +0000
Subject: [PATCH 21/56] fix: expanding a simple variable reports what its value
 depends on

The sensitivity of the block computed at assignment time was dropped.
---
 src/ast/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 88f10cf..cc209f7 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -119,7 +119,10 @@ impl AstNode {
                 }
                 contents
             }
-            AstChildren::PreEvaluated(ref block) => block.content().map(|x| x.clone()).collect(),
+            AstChildren::PreEvaluated(ref block) => {
+                merge_sensitivity!(block.raw_sensitivity());
+                block.content().map(|x| x.clone()).collect()
+            }
             AstChildren::VariableReference(name) => {
                 // Compute the variable name, and then try to evaluate it
                 let name = eval_subexpr!(name);
-- 
2.43.0


From 790f482fbf54fcacfc237352398b89d39e840c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:08 +0000
Subject: [PATCH 22/56] fix: match the key of a substitution reference against
 the whole word

The key was searched for from the left and had to leave a non-empty stem,
so words with a second occurrence of the key (a.c.c), a key ending in '%'
and words equal to the key were left alone.
---
 src/ast/text_functions.rs | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 086861c..26f817c 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -56,6 +56,8 @@ fn do_replacement<'a>(
     pre_replacement: BlockSpan,
     post_replacement: BlockSpan,
 ) -> Arc<Block> {
+    use nom::Slice;
+
     let mut output = Block::new(sensitivity, Default::default());
     let total_key_length = pre_key.len() + post_key.len();
     let mut first = true;
@@ -79,31 +81,16 @@ fn do_replacement<'a>(
             continue;
         }
 
-        let (token_remaining, captured) = match delimited!(
-            token,
-            tag!(pre_key),
-            recognize!(many1!(take_until!(post_key))),
-            tag!(post_key)
-        ) {
-            Ok(v) => v,
-            Err(_) => {
-                // A failure to match here indicates we couldn't find the key,
-                // so just push everything and move on
-                debug!("Skipping because capture failed");
-                Arc::make_mut(&mut output).push_all_contents(token);
-                continue;
-            }
-        };
-        if token_remaining.len() != 0 {
-            // We didn't make it to the end of the line when matching for the post key,
-            // so the key doesn't match. Push and continue
-            debug!(
-                "Skipping because capture was not completed {:?}",
-                token_remaining.into_string()
-            );
+        let text = token.into_string();
+        if !text.starts_with(pre_key) || !text.ends_with(post_key) {
+            // The key doesn't match the whole token, so just push everything
+            // and move on
+            debug!("Skipping because the key doesn't match");
             Arc::make_mut(&mut output).push_all_contents(token);
             continue;
         }
+        let captured = token.slice(pre_key.len()..token.len() - post_key.len());
+
         // Push the replacement
         Arc::make_mut(&mut output).push_all_contents(pre_replacement.clone());
         Arc::make_mut(&mut output).push_all_contents(captured.clone());
-- 
2.43.0


From 462e7e0b6a16e4bdb78e17b1d19d843ea4b84f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:09 +0000
Subject: [PATCH 23/56] fix: a replacement without '%' replaces the whole word

$(foo:a%c=x) kept the text matched by the '%' of the key.
---
 src/ast/text_functions.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 26f817c..f07dbb1 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -24,8 +24,9 @@ pub(super) fn do_subref(
                     &post_key.into_string(),
                     pre_replacement.span(),
                     post_replacement,
+                    true,
                 ),
-                // Only key had a %
+                // Only key had a %, so there's no place for what it matched
                 (replacement, None) => do_replacement(
                     variable_value.span(),
                     sensitivity,
@@ -33,6 +34,7 @@ pub(super) fn do_subref(
                     &post_key.into_string(),
                     BlockSpan::empty(),
                     replacement.span(),
+                    false,
                 ),
             }
         }
@@ -43,6 +45,7 @@ pub(super) fn do_subref(
             &key.into_string(),
             BlockSpan::empty(),
             replacement.span(),
+            true,
         ),
     }
 }
@@ -55,6 +58,7 @@ fn do_replacement<'a>(
     post_key: &str,
     pre_replacement: BlockSpan,
     post_replacement: BlockSpan,
+    keep_captured: bool,
 ) -> Arc<Block> {
     use nom::Slice;
 
@@ -93,7 +97,9 @@ fn do_replacement<'a>(
 
         // Push the replacement
         Arc::make_mut(&mut output).push_all_contents(pre_replacement.clone());
-        Arc::make_mut(&mut output).push_all_contents(captured.clone());
+        if keep_captured {
+            Arc::make_mut(&mut output).push_all_contents(captured.clone());
+        }
         Arc::make_mut(&mut output).push_all_contents(post_replacement.clone());
     }
     // Since we just pushed a bunch of garbage we should be nice and simplify
-- 
2.43.0


From b7d3cda405d803cb3368e879999c926c8b3ed80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:13 +0000
Subject: [PATCH 24/56] fix: finish the current rule before the next line is
 expanded

A rule defined by an eval on the next line was recorded before the rule that
precedes it, so the wrong one of the two took effect.
---
 src/parsers/mod.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index e613178..9d9c38f 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -226,19 +226,19 @@ impl ParserState {
             return Ok((i, ()));
         }
 
+        // Any other line ends the current rule. Parsing the line may expand
+        // things, so the rule has to be in the database before we do that.
+        self.close_rule(names, engine);
+
         run_line_parser!(
             variable::parse_line(line.span(), names, engine),
             |variable_action| {
                 debug!("Matched variable action {:?}", variable_action);
-                // Successful variable assignments close the current rule
-                self.close_rule(names, engine);
-
                 self.handle_global_variable_action(engine, variable_action)
             }
         );
 
         run_line_parser!(directives::parse_line(line.span()), |directive_action| {
-            self.close_rule(names, engine);
             self.handle_directive_action(names, engine, directive_action)
         });
 
@@ -249,11 +249,7 @@ impl ParserState {
 
         run_line_parser!(
             targets::parse_line(line.span(), names, engine),
-            |target_action| {
-                self.close_rule(names, engine);
-
-                self.handle_target_action(engine, target_action)
-            }
+            |target_action| self.handle_target_action(engine, target_action)
         );
 
         Ok((i, ()))
-- 
2.43.0


From 2b832a9a4344ba6292d6b75e5430ee71d37b5667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:32 +0000
Subject: [PATCH 25/56] fix: reject lines without a separator, tolerate words
 that expand to nothing

The end of a target line was never recognised: a stray word was accepted as
an empty line, and a rule was dropped if any word of it expanded to nothing.
---
 src/parsers/targets/mod.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index f6dd289..8a5c9e6 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -204,11 +204,6 @@ pub(crate) fn parse_line<'a>(
             "After semicolon search, content is {:?}",
             new_content.into_string()
         );
-        if new_content.len() == 0 {
-            // Make seems to implicitly consume the whole line in this situation
-            return Ok((rest, Action::NoAction));
-        }
-
         match find_non_drivespec_colon(new_content.span()) {
             DrivespecSearchResult::FoundColon {
                 pre_colon: pre,
@@ -235,6 +230,13 @@ pub(crate) fn parse_line<'a>(
             }
         }
 
+        // Push synthetic spaces between spaces
+        debug!("Adding {:?} to expanded content", new_content.into_string());
+        if pre_colon_buffer.len() > 0 {
+            Arc::make_mut(&mut pre_colon_buffer).push(ContentReference::space());
+        }
+        Arc::make_mut(&mut pre_colon_buffer).push_all_contents(new_content.span());
+
         let mword = next_mword(line_next).map_err(|e| lift_collapsed_span_error(e, line_start))?;
         line_next = mword.0;
         mw = (mword.1).0;
@@ -243,13 +245,6 @@ pub(crate) fn parse_line<'a>(
         if mwt == MWordEnd::EOL {
             break;
         }
-
-        // Push synthetic spaces between spaces
-        debug!("Adding {:?} to expanded content", new_content.into_string());
-        if pre_colon_buffer.len() > 0 {
-            Arc::make_mut(&mut pre_colon_buffer).push(ContentReference::space());
-        }
-        Arc::make_mut(&mut pre_colon_buffer).push_all_contents(new_content.span());
     }
 
     debug!("Line split into {:?} and:", pre_colon_buffer.into_string(),);
@@ -418,6 +413,10 @@ fn next_mword<'a>(
     // Skip any leading whitespace
     let (i, _) = makefile_whitespace(i)?;
 
+    if i.len() == 0 {
+        return Ok((i, (i, MWordEnd::EOL)));
+    }
+
     // Early out on simple cases
     if let Ok((i, (cap, end_reason))) = pe_fix!(
         i,
-- 
2.43.0


From 5dd8b3df67e35594ba184f8ca4d67b62e21a202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:33 +0000
Subject: [PATCH 26/56] fix: an assignment in an inline recipe is not a
 target-specific variable

---
 src/parsers/targets/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 8a5c9e6..6ac4138 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -299,8 +299,12 @@ pub(crate) fn parse_line<'a>(
         }
     };
 
-    // Try to match against a variable assignment operation
-    match parse_variable_line(post_targets_slice, names, engine) {
+    // Try to match against a variable assignment operation. A semicolon only
+    // belongs to the assignment if it comes after the operator, otherwise it
+    // starts the recipe.
+    let assignment = parse_variable_line(post_targets_slice.slice(..pre_semi_len), names, engine)
+        .and_then(|_| parse_variable_line(post_targets_slice, names, engine));
+    match assignment {
         Ok((_, action)) => {
             return Ok((
                 rest,
-- 
2.43.0


From 79c0b8d452407b50b6e0b826f209101127656ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:35 +0000
Subject: [PATCH 27/56] fix: reject recipe lines that don't belong to a rule

The check looked for the command character after it had been stripped, so
such lines were read as rules.
---
 src/parsers/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 9d9c38f..8ac5361 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -242,7 +242,8 @@ impl ParserState {
             self.handle_directive_action(names, engine, directive_action)
         });
 
-        if line.span().chars().next() == Some(engine.command_char) {
+        // Collapsing the line strips the initial whitespace, so look at the original.
+        if line_start.chars().next() == Some(engine.command_char) {
             // A tab (command character) at this point is definitely an error.
             return fail_out(line_start, ParseErrorKind::RecipeExpected);
         }
-- 
2.43.0


From 029ff7a96e9ebe637fd80578d1437c9b976ccbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:55 +0000
Subject: [PATCH 28/56] fix: report a malformed ifeq or ifneq

It was treated as a target line, and its else and endif as unattached.
---
 src/parsers/conditional/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index e23fcc8..7abd013 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -191,7 +191,11 @@ fn parse_line_internal<'a>(
         }
         ConditionalType::IfEq | ConditionalType::IfNEq => {
             // TODO(bobtwinkles): The quality of the errors added to the error stack here are quite low
-            let (input, (arg1, arg2)) = parse_ifeq(input)?;
+            let (input, (arg1, arg2)) = return_error!(
+                input,
+                ErrorKind::Custom(ParseErrorKind::MalformedIfEq),
+                parse_ifeq
+            )?;
 
             if tag == ConditionalType::IfEq {
                 Ok((input, Conditional::IfEq(arg1, arg2)))
-- 
2.43.0


From 75fcb1ca99c07d8de89e35dbcd3a7f9399a92a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:21 +0000
Subject: [PATCH 29/56] fix: continue a recipe line that has no command
 character

A backslash at the end of a recipe line continues it on the next line whether
or not that line starts with the command character.
---
 src/parsers/recipe_line.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parsers/recipe_line.rs b/src/parsers/recipe_line.rs
index 3c2c94a..613a4bf 100644
--- a/src/parsers/recipe_line.rs
+++ b/src/parsers/recipe_line.rs
@@ -42,7 +42,15 @@ pub(super) fn recipe_line<'a>(
 
     while ends_with_backslash(line.span()) & 1 == 1 {
         Arc::make_mut(&mut line).push(ContentReference::newline()); // Add back the \n we striped
-        let next_line_result = grab_command_line!(i);
+        if i.len() == 0 {
+            break;
+        }
+        // The command character is optional on continuation lines
+        let next_line_result = preceded!(
+            i,
+            fix_error!(ParseErrorKind, opt!(char!(command_char))),
+            makefile_grab_line
+        );
         match next_line_result {
             Ok((new_i, (next_line, end_reason))) => {
                 Arc::make_mut(&mut line).push(next_line.to_content_reference());
-- 
2.43.0


From 594980a708ad5e5d0d2b60d91e0e27ff04edc104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:23 +0000
Subject: [PATCH 30/56] fix: keep an escaped character at the end of a target
 line in its word

Cut off from its backslash, the colon of 'a\:' was taken for a separator.
---
 src/parsers/targets/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 6ac4138..37d4f0b 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -515,6 +515,7 @@ fn next_mword<'a>(
                     // This is escaping something, skip forward
                     prev_char = chr;
                     char_iter.next();
+                    stop_index += 1;
                 }
             }
             continue;
-- 
2.43.0


From 5a79e2baf7eb673325e2d22635310b9e6e199f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:28 +0000
Subject: [PATCH 31/56] fix: += onto an empty value, or of an empty value, adds
 no space

'y =' followed by 'y += b' produced ' b', and 'x := a' followed by 'x +=' produced 'a '.
---
 src/ast/mod.rs | 10 ++++++++++
 src/lib.rs     |  6 +++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index cc209f7..564397c 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -41,6 +41,16 @@ impl AstNode {
         &mut self.children
     }
 
+    /// Returns true if there is no text in this node at all, expanded or not
+    pub(crate) fn is_blank(&self) -> bool {
+        match self.children() {
+            AstChildren::Empty => true,
+            AstChildren::PreEvaluated(block) => block.len() == 0,
+            AstChildren::Concat(children) => children.iter().all(AstNode::is_blank),
+            _ => false,
+        }
+    }
+
     /// Evaluate this AST, in the context of the provided database. The provided
     /// database *is not* updated. To fully commit the changes of this
     /// evaluation, one must use `Engine::replace_database` with the returned
diff --git a/src/lib.rs b/src/lib.rs
index a9f65e4..65779f6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -354,9 +354,13 @@ impl Database {
         let mut tr = self.clone();
         // tr.variables.
         tr.variables = tr.variables.update_with(name, content, |mut old, new| {
+            // There is nothing to separate if either side is empty
+            let needs_space = implicit_space
+                && !old.unexpanded_value.is_blank()
+                && !new.unexpanded_value.is_blank();
             old.unexpanded_value = ast::collapsing_concat(
                 location,
-                if implicit_space {
+                if needs_space {
                     vec![
                         old.unexpanded_value,
                         ast::constant(LocatedString::new(Location::Synthetic.into(), " ".into())),
-- 
2.43.0


From 42a0080bab451d9ca95fa8182c74e275e2f76fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:30 +0000
Subject: [PATCH 32/56] fix: a comment after a define is not part of its body

'define X # c' stored '# c' as the first line of X.
---
 src/parsers/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 8ac5361..722b7d3 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -120,6 +120,8 @@ impl ParserState {
         names: &mut NameCache,
         engine: &mut Engine,
     ) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
+        use nom::Slice;
+
         let line_start = i;
         /// A small macro that returns on Err(NErr::Failure) or Ok()
         /// but "backtracks" (ignores the result) on recoverable failures or
@@ -185,6 +187,14 @@ impl ParserState {
         // TODO: expose the parser compliance knob upstream
         let (i, line) = makefile_line(i, ParserCompliance::GNU, true)?;
 
+        // If a comment ended the line, it has to go now: after a define it
+        // would otherwise be taken for the first line of the body.
+        let consumed = line_start.slice(..line_start.len() - i.len());
+        let i = match comment::parse_comment(i) {
+            Ok((after_comment, _)) if consumed.chars().last() != Some('\n') => after_comment,
+            _ => i,
+        };
+
         // Convenience macro for running parsers against the line
         macro_rules! run_line_parser(
             ($parsed:expr, $cleanup:expr) => {
-- 
2.43.0


From aca2ef0ae6016889dd9541b288fede8ec23dfbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:33 +0000
Subject: [PATCH 33/56] fix: nothing inside a variable reference ends a
 variable name

'$(x:=.o): y' was taken for an assignment to '$(x' and rejected.
---
 src/parsers/variable/mod.rs | 44 ++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index e193010..77ff331 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -287,22 +287,46 @@ pub(crate) fn parse_line<'a>(
     }
 }
 
+/// Find out how much of the span is a variable name. Nothing inside a variable
+/// reference can end the name.
+fn variable_name_length(i: BlockSpan) -> usize {
+    let mut chars = i.char_indices();
+    while let Some((idx, c)) = chars.next() {
+        match c {
+            '$' => {
+                let (open, close) = match chars.next() {
+                    Some((_, '(')) => ('(', ')'),
+                    Some((_, '{')) => ('{', '}'),
+                    // `$$` or a single character reference
+                    _ => continue,
+                };
+                let mut depth = 1;
+                while depth > 0 {
+                    match chars.next() {
+                        Some((_, c)) if c == open => depth += 1,
+                        Some((_, c)) if c == close => depth -= 1,
+                        Some(_) => {}
+                        None => return i.len(),
+                    }
+                }
+            }
+            ':' | '=' | '!' | '?' | '+' => return idx,
+            c if c.is_whitespace() => return idx,
+            _ => {}
+        }
+    }
+    i.len()
+}
+
 /// Parse a span, returning the captured variable name and the type of
 /// assignment on success. The remaining content will start directly after the
 /// equals operator
 fn parse_assignment_operator<'a>(
     i: BlockSpan<'a>,
 ) -> IResult<BlockSpan<'a>, (BlockSpan<'a>, AssignmentType), ParseErrorKind> {
-    let (i, variable_name) = match take_till!(i, |c: char| c.is_whitespace()
-        || c == ':'
-        || c == '='
-        || c == '!'
-        || c == '?'
-        || c == '+')
-    {
-        Ok(v) => v,
-        Err(_) => return error_out(i, ParseErrorKind::InternalFailure("name not captured")),
-    };
+    use nom::InputTake;
+
+    let (i, variable_name) = i.take_split(variable_name_length(i));
 
     debug!(
         "Captured variable name {:?}, {:?} left to parse",
-- 
2.43.0


From 009ca4912bdfb2ceba43e4aabc64f7152eec8dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:45 +0000
Subject: [PATCH 34/56] fix: offsets between spans count the bytes before the
 second span's start

---
 src/evaluated/block_span.rs | 15 ---------------
 src/evaluated/nom/mod.rs    | 15 +++------------
 2 files changed, 3 insertions(+), 27 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index 3ea4b30..c58d2c0 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -26,21 +26,6 @@ impl<'a> BlockSpan<'a> {
         }
     }
 
-    /// Create an empty block with the provided parent.
-    /// This requires us to also pass an empty array for "contents", so `Offset`
-    /// works correctly.
-    pub(crate) fn empty_with_parent(
-        parent: &'a Block,
-        contents: &'a [ContentReference],
-    ) -> BlockSpan<'a> {
-        BlockSpan {
-            parent,
-            contents: contents,
-            offset: 0,
-            length: 0,
-        }
-    }
-
     #[inline]
     pub(super) fn revalidate_offset(&mut self) {
         if self.length == 0 {
diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index a8f4c1b..1ad5a00 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -98,10 +98,7 @@ impl<'a> InputTakeAtPosition for BlockSpan<'a> {
                 let snd = self.slice(..i);
                 Ok((fst, snd))
             }
-            None => Ok((
-                BlockSpan::empty_with_parent(self.parent, &self.contents[self.contents.len()..]),
-                *self,
-            )),
+            None => Ok((self.slice(self.length..), *self)),
         }
     }
 
@@ -116,13 +113,7 @@ impl<'a> InputTakeAtPosition for BlockSpan<'a> {
                 if self.length == 0 {
                     Err(Err::Error(Context::Code(*self, e)))
                 } else {
-                    Ok((
-                        BlockSpan::empty_with_parent(
-                            self.parent,
-                            &self.contents[self.contents.len()..],
-                        ),
-                        *self,
-                    ))
+                    Ok((self.slice(self.length..), *self))
                 }
             }
         }
@@ -219,7 +210,7 @@ impl<'a> Offset for BlockSpan<'a> {
                 tr += walk[0].length;
                 walk = &walk[1..];
             }
-            tr
+            tr + second.offset
         }
     }
 }
-- 
2.43.0


From 2f898d0bcfd0e650cb88cbcadde9d606e231949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:58 +0000
Subject: [PATCH 35/56] fix: report a function call with the wrong number of
 arguments in an assignment

Only unterminated references were; the line was taken for a rule instead.
---
 src/parsers/variable/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 77ff331..c08b70b 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -190,7 +190,9 @@ pub(crate) fn parse_line<'a>(
             Ok(v) => return Ok(v),
             Err(e) => {
                 match e.clone().into_error_kind() {
-                    nom::ErrorKind::Custom(ParseErrorKind::UnternimatedVariable) => return Err(e),
+                    nom::ErrorKind::Custom(ParseErrorKind::UnternimatedVariable)
+                    | nom::ErrorKind::Custom(ParseErrorKind::InsufficientArguments(_))
+                    | nom::ErrorKind::Custom(ParseErrorKind::ExtraArguments(_)) => return Err(e),
                     _ => {
                         // We don't propagate any other kind of error
                     }
-- 
2.43.0


From f8552a9e4cbc1899869389ac41bf71d7fbddd622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:00 +0000
Subject: [PATCH 36/56] fix: whitespace alone is not a word for substitution
 references

---
 src/ast/text_functions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index f07dbb1..0cdd2d8 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -69,6 +69,11 @@ fn do_replacement<'a>(
         let (new_tokens, token) = makefile_token(tokens).expect("tokens should never fail");
         tokens = new_tokens;
 
+        if token.len() == 0 {
+            // There was only whitespace
+            continue;
+        }
+
         if !first {
             // We just pushed something else, so push a space
             Arc::make_mut(&mut output).push(crate::evaluated::ContentReference::space());
-- 
2.43.0


From 8749fcf173b8c0cbba224f358af0b8b38aacefce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:01 +0000
Subject: [PATCH 37/56] fix: spans of blocks that start with an empty element
 can be copied

---
 src/evaluated/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/evaluated/mod.rs b/src/evaluated/mod.rs
index abcfc5b..29ce4ca 100644
--- a/src/evaluated/mod.rs
+++ b/src/evaluated/mod.rs
@@ -70,12 +70,15 @@ impl Block {
     /// Get this block as a parsable span
     pub fn span(&self) -> BlockSpan {
         let length = self.content.iter().map(|x| x.length).sum();
-        BlockSpan {
+        let mut span = BlockSpan {
             parent: self,
             contents: &self.content,
             offset: 0,
             length: length,
-        }
+        };
+        // The first element may be empty
+        span.revalidate_offset();
+        span
     }
 
     /// Get a list of things that this tree is sensitive too
-- 
2.43.0


From 4045f98b7372720bf48503187331e67a6928fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:12 +0000
Subject: [PATCH 38/56] fix: dependencies out of an expansion that also had the
 colon are sensitive to it

---
 src/parsers/targets/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 37d4f0b..1b23fa3 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -327,7 +327,13 @@ pub(crate) fn parse_line<'a>(
             None
         };
 
-        let pre_semi_buffer = expand_segment!(pre_semi_slice);
+        let mut pre_semi_buffer = expand_segment!(pre_semi_slice);
+        // The text may already have come out of an expansion, when the colon did
+        if post_targets_buffer.sensitivity().next().is_some() {
+            let mut block = Block::new(post_targets_buffer.raw_sensitivity(), Vec::new());
+            Arc::make_mut(&mut block).push_all_contents(pre_semi_buffer.span());
+            pre_semi_buffer = block;
+        }
 
         if post_semi_slice.is_none() {
             // Last ditch attempt to find a semicolon
-- 
2.43.0


From 938b45cf90008669cd62b9edfdb7320846596ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:09 +0000
Subject: [PATCH 39/56] fix: empty spans know their place in the block too

---
 src/evaluated/block_span.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index c58d2c0..35eeb64 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -28,15 +28,10 @@ impl<'a> BlockSpan<'a> {
 
     #[inline]
     pub(super) fn revalidate_offset(&mut self) {
-        if self.length == 0 {
-            return;
-        }
-
-        let mut start_span_length = self.contents[0].length;
-        while self.offset >= start_span_length {
-            self.offset -= start_span_length;
+        // Empty spans have a place too, possibly after the last element
+        while !self.contents.is_empty() && self.offset >= self.contents[0].length {
+            self.offset -= self.contents[0].length;
             self.contents = &self.contents[1..];
-            start_span_length = self.contents[0].length;
         }
     }
 
-- 
2.43.0


From db2f4923f39758648570a21649b0f35b26cc1945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:02 +0000
Subject: [PATCH 40/56] fix: compare the arguments of ifeq without trimming
 their expansions

---
 src/parsers/conditional/mod.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 7abd013..827a2b7 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -56,12 +56,7 @@ impl crate::parsers::ParserState {
                 let a = a.eval(names, engine);
                 let b = b.eval(names, engine);
 
-                let a = a.into_string();
-                let b = b.into_string();
-                let a = a.trim();
-                let b = b.trim();
-
-                let conditional_mode = if a == b {
+                let conditional_mode = if a.into_string() == b.into_string() {
                     super::ConditionalInterpretation::Executing
                 } else {
                     super::ConditionalInterpretation::NotExecuting
@@ -288,7 +283,17 @@ fn parse_ifeq<'a>(
     )?;
     debug!("Using arg1 separator {:?}", terminator);
 
-    let (line, arg1) = take_till_terminator(line, terminator)?;
+    let (line, mut arg1) = take_till_terminator(line, terminator)?;
+    if terminator == ',' {
+        // Blanks before the comma aren't part of the argument
+        use nom::Slice;
+        let end = arg1
+            .char_indices()
+            .filter(|&(_, c)| c != ' ' && c != '\t')
+            .last()
+            .map_or(0, |(idx, c)| idx + c.len_utf8());
+        arg1 = arg1.slice(..end);
+    }
     let (_, arg1) = parse_ast(arg1)?;
     debug!("Got arg1 {:?}", arg1);
     let (line, _) = makefile_whitespace(line)?;
-- 
2.43.0


From 47e1baca8a015eaac5f40e18a1d5fd0b89546e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 41/56] fix: dependencies out of a variable that holds the
 colon are expanded only once

When the colon of a rule line came out of an expansion, the rest of that
expansion was parsed and expanded again together with the rest of the line.
---
 src/parsers/targets/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 1b23fa3..553f605 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -270,10 +270,12 @@ pub(crate) fn parse_line<'a>(
     debug!("Got file sequence {:?}", targets);
 
     // Everything after the colon gets shoved into one big buffer
-    let (post_targets_buffer, pre_semi_len) = {
+    let (post_targets_buffer, expanded_len, pre_semi_len) = {
         let mut block = Block::empty();
         // after_colon must be some, otherwise how did we get here?
         Arc::make_mut(&mut block).push_all_contents(after_colon.unwrap().span());
+        // That part has already been expanded, what follows has not
+        let expanded_len = block.len();
         // Push whatever is left of the unprocessed line. If line_next is empty,
         // that means there was a semicolon which we handle below
         Arc::make_mut(&mut block).push_all_contents(line_next);
@@ -289,13 +291,13 @@ pub(crate) fn parse_line<'a>(
             None => {}
         }
 
-        (block, pre_semi_len)
+        (block, expanded_len, pre_semi_len)
     };
-    let (post_targets_slice, double_colon, pre_semi_len) = {
+    let (post_targets_slice, double_colon, expanded_len, pre_semi_len) = {
         let slice = post_targets_buffer.span();
         match tag!(slice, ":") {
-            Ok((i, _)) => (i, true, pre_semi_len - 1),
-            Err(_) => (slice, false, pre_semi_len),
+            Ok((i, _)) => (i, true, expanded_len.saturating_sub(1), pre_semi_len - 1),
+            Err(_) => (slice, false, expanded_len, pre_semi_len),
         }
     };
 
@@ -327,13 +329,11 @@ pub(crate) fn parse_line<'a>(
             None
         };
 
-        let mut pre_semi_buffer = expand_segment!(pre_semi_slice);
         // The text may already have come out of an expansion, when the colon did
-        if post_targets_buffer.sensitivity().next().is_some() {
-            let mut block = Block::new(post_targets_buffer.raw_sensitivity(), Vec::new());
-            Arc::make_mut(&mut block).push_all_contents(pre_semi_buffer.span());
-            pre_semi_buffer = block;
-        }
+        let unexpanded = expand_segment!(pre_semi_slice.slice(expanded_len..));
+        let mut pre_semi_buffer = Block::new(post_targets_buffer.raw_sensitivity(), Vec::new());
+        Arc::make_mut(&mut pre_semi_buffer).push_all_contents(pre_semi_slice.slice(..expanded_len));
+        Arc::make_mut(&mut pre_semi_buffer).push_all_contents(unexpanded.span());
 
         if post_semi_slice.is_none() {
             // Last ditch attempt to find a semicolon
-- 
2.43.0


From ded2867b1d7f65d873346d260fbf213ed99186df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:01 +0000
Subject: [PATCH 42/56] verif: read access to the nodes behind evaluated
 content, under cfg(hastur_verif)

---
 src/evaluated/content_reference.rs | 8 ++++++++
 src/evaluated/nodes.rs             | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index fa7cbeb..2b051a3 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -144,6 +144,14 @@ impl ContentReference {
     }
 }
 
+#[cfg(hastur_verif)]
+impl ContentReference {
+    /// The node, the offset into it and the length, for verification harnesses
+    pub fn verif_parts(&self) -> (&EvaluatedNode, usize, usize) {
+        (&self.node, self.offset, self.length)
+    }
+}
+
 /// An iterator over the characters in a content reference
 #[derive(Clone, Debug)]
 pub struct ContentReferenceIter<'a> {
diff --git a/src/evaluated/nodes.rs b/src/evaluated/nodes.rs
index 495b52d..0322e45 100644
--- a/src/evaluated/nodes.rs
+++ b/src/evaluated/nodes.rs
@@ -236,3 +236,11 @@ impl Evaluated {
         &self.value
     }
 }
+
+#[cfg(hastur_verif)]
+impl VariableReference {
+    /// The value the variable had, for verification harnesses
+    pub fn verif_value(&self) -> &Block {
+        &self.value
+    }
+}
-- 
2.43.0


From 38e9cb0e41076532c3538dd431b2cb616b911109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 43/56] fix: substitution references split their value at line
 ends, too

The value of a multi-line variable was rewritten as if the last word of a
line and the first one of the next were one word.
---
 src/parsers/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 722b7d3..9d14c43 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -389,6 +389,11 @@ fn makefile_word_end<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, (), ParseEr
     }
 }
 
+/// Words in expanded text may be separated by line ends and the like as well
+fn is_word_separator(c: char) -> bool {
+    c.is_ascii_whitespace() || c == '\x0b'
+}
+
 /// Capture the next token in the input
 #[inline]
 pub fn makefile_token<T>(input: T) -> IResult<T, T, ParseErrorKind>
@@ -398,9 +403,9 @@ where
     pe_fix!(
         input,
         delimited!(
-            makefile_whitespace,
-            pe_fix!(take_while!(|c| c != ' ' && c != '\t')),
-            makefile_whitespace
+            pe_fix!(take_while!(is_word_separator)),
+            pe_fix!(take_till!(is_word_separator)),
+            pe_fix!(take_while!(is_word_separator))
         )
     )
 }
-- 
2.43.0


From a38c313e1c2ec3f42ddd985e5947ef53f901c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 44/56] fix: the first colon of a substitution reference ends
 the name

With a colon in the key or the replacement, everything up to the last colon
was taken for the variable's name, which then expanded to nothing.
---
 src/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 564397c..c0adae0 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -139,7 +139,7 @@ impl AstNode {
                 debug!("Variable name is {:?}", name.into_string());
                 let colon_find = pair!(
                     name.span(),
-                    recognize!(many1!(take_until_and_consume!(":"))),
+                    recognize!(take_until_and_consume!(":")),
                     recognize!(many1!(take_until_and_consume!("=")))
                 );
                 match colon_find {
-- 
2.43.0


From 9f67be9e9fff99f94b95d227c18586651fe8eba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 45/56] fix: words rewritten to nothing by a pattern leave no
 blank behind

---
 src/ast/text_functions.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 0cdd2d8..a6dc48a 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -74,6 +74,15 @@ fn do_replacement<'a>(
             continue;
         }
 
+        let text = token.into_string();
+        let matches = token.len() >= total_key_length
+            && text.starts_with(pre_key)
+            && text.ends_with(post_key);
+        if matches && !keep_captured && pre_replacement.len() + post_replacement.len() == 0 {
+            debug!("Dropping {:?}, its replacement is empty", text);
+            continue;
+        }
+
         if !first {
             // We just pushed something else, so push a space
             Arc::make_mut(&mut output).push(crate::evaluated::ContentReference::space());
@@ -81,17 +90,9 @@ fn do_replacement<'a>(
             first = false;
         }
 
-        debug!("processing token {:?}", token.into_string());
+        debug!("processing token {:?}", text);
 
-        if token.len() < total_key_length {
-            // The token is too short to match the key, just push all its contents unmodified
-            debug!("Skipping because too short");
-            Arc::make_mut(&mut output).push_all_contents(token);
-            continue;
-        }
-
-        let text = token.into_string();
-        if !text.starts_with(pre_key) || !text.ends_with(post_key) {
+        if !matches {
             // The key doesn't match the whole token, so just push everything
             // and move on
             debug!("Skipping because the key doesn't match");
-- 
2.43.0


From ba96b3e98234662809d4718cf8c40808c207e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:35 +0000
Subject: [PATCH 46/56] fix: keywords are case sensitive

---
 src/parsers/conditional/mod.rs | 12 ++++++------
 src/parsers/directives/mod.rs  |  2 +-
 src/parsers/variable/mod.rs    | 10 +++++-----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 827a2b7..d3a7a09 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -144,12 +144,12 @@ fn parse_line_internal<'a>(
             fix_error!(
                 ParseErrorKind,
                 alt_complete!(
-                    tag_no_case!("ifdef") => { |_| ConditionalType::IfDef } |
-                    tag_no_case!("ifndef") => { |_| ConditionalType::IfNDef } |
-                    tag_no_case!("ifeq") => { |_| ConditionalType::IfEq } |
-                    tag_no_case!("ifneq") => { |_| ConditionalType::IfNEq } |
-                    tag_no_case!("else") => { |_| ConditionalType::Else } |
-                    tag_no_case!("endif") => { |_| ConditionalType::EndIf }
+                    tag!("ifdef") => { |_| ConditionalType::IfDef } |
+                    tag!("ifndef") => { |_| ConditionalType::IfNDef } |
+                    tag!("ifeq") => { |_| ConditionalType::IfEq } |
+                    tag!("ifneq") => { |_| ConditionalType::IfNEq } |
+                    tag!("else") => { |_| ConditionalType::Else } |
+                    tag!("endif") => { |_| ConditionalType::EndIf }
                 )
             )
         )
diff --git a/src/parsers/directives/mod.rs b/src/parsers/directives/mod.rs
index 1f12ff2..058513f 100644
--- a/src/parsers/directives/mod.rs
+++ b/src/parsers/directives/mod.rs
@@ -97,7 +97,7 @@ impl crate::parsers::ParserState {
 pub(crate) fn parse_line<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, Action, ParseErrorKind> {
     macro_rules! keyword(
         ($i:expr, $keyword:literal) => {
-            terminated!($i, pe_fix!(tag_no_case!($keyword)), makefile_word_end)
+            terminated!($i, pe_fix!(tag!($keyword)), makefile_word_end)
         };
     );
 
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index c08b70b..3173c4d 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -204,11 +204,11 @@ pub(crate) fn parse_line<'a>(
         let (new_i, modifier) = match terminated!(
             i,
             alt!(
-                pe_complete!(pe_fix!(tag_no_case!("define"))) => { |_| Modifier::Define } |
-                pe_complete!(pe_fix!(tag_no_case!("export"))) => { |_| Modifier::Export }  |
-                pe_complete!(pe_fix!(tag_no_case!("override"))) => { |_| Modifier::Override } |
-                pe_complete!(pe_fix!(tag_no_case!("private"))) => { |_| Modifier::Private } |
-                pe_complete!(pe_fix!(tag_no_case!("undefine"))) => { |_| Modifier::Undefine }
+                pe_complete!(pe_fix!(tag!("define"))) => { |_| Modifier::Define } |
+                pe_complete!(pe_fix!(tag!("export"))) => { |_| Modifier::Export }  |
+                pe_complete!(pe_fix!(tag!("override"))) => { |_| Modifier::Override } |
+                pe_complete!(pe_fix!(tag!("private"))) => { |_| Modifier::Private } |
+                pe_complete!(pe_fix!(tag!("undefine"))) => { |_| Modifier::Undefine }
             ),
             preceded!(makefile_word_end, makefile_whitespace)
         ) {
-- 
2.43.0


From 9bce45968a30e5bb84c25784922bf16a6393efcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:08 +0000
Subject: [PATCH 47/56] fix: variables can be named like a conditional keyword

---
 src/parsers/mod.rs          |  7 +++++--
 src/parsers/variable/mod.rs | 11 +++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 9d14c43..778f25e 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -227,8 +227,11 @@ impl ParserState {
             return Ok((i, ()));
         }
 
-        run_line_parser!(conditional::parse_line(line.span()), |conditional| self
-            .handle_conditional(conditional, names, engine));
+        // Variables can have names like `else`, so assignments take precedence
+        if !variable::is_conditional_keyword_assignment(line.span()) {
+            run_line_parser!(conditional::parse_line(line.span()), |conditional| self
+                .handle_conditional(conditional, names, engine));
+        }
 
         if self.ignoring {
             // The parse state indicates that we should just ignore this line
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 3173c4d..fa41712 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -355,6 +355,17 @@ fn parse_assignment_operator<'a>(
     Ok((i, (variable_name, assignment_type)))
 }
 
+/// Is this line an assignment to a variable named like one of the conditionals?
+pub(crate) fn is_conditional_keyword_assignment(i: BlockSpan) -> bool {
+    match makefile_whitespace(i).and_then(|(i, _)| parse_assignment_operator(i)) {
+        Ok((_, (variable_name, _))) => match variable_name.into_string().as_str() {
+            "ifdef" | "ifndef" | "ifeq" | "ifneq" | "else" | "endif" => true,
+            _ => false,
+        },
+        Err(_) => false,
+    }
+}
+
 fn parse_variable_assignment<'a>(
     i: BlockSpan<'a>,
     modifiers: Modifiers,
-- 
2.43.0


From 32605c200bc258555f995a4b9cf7ab6e01b7f53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 48/56] fix: lines of a define that start like a recipe line
 are just text

---
 src/parsers/mod.rs          |  6 ++++--
 src/parsers/variable/mod.rs | 13 +++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 778f25e..3a84c4b 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -178,8 +178,10 @@ impl ParserState {
             });
         } else if self.current_define.is_some() {
             // If we're currently parsing a line inside a define, handle that
-            run_parser!(variable::parse_define_line(i), |action| self
-                .handle_define_line(engine, action));
+            run_parser!(
+                variable::parse_define_line(i, engine.command_char),
+                |action| self.handle_define_line(engine, action)
+            );
             panic!("Parsing a define line should never fail");
         }
 
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index fa41712..8395267 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -428,6 +428,7 @@ fn parse_variable_assignment<'a>(
 /// Parse a line inside a define
 pub(crate) fn parse_define_line<'a>(
     i: BlockSpan<'a>,
+    command_char: char,
 ) -> IResult<BlockSpan<'a>, DefineLine, ParseErrorKind> {
     use nom::{InputIter, InputTake};
 
@@ -447,6 +448,18 @@ pub(crate) fn parse_define_line<'a>(
     let location = i.location().expect("There should be content on the line");
     let (_, ast) = parse_ast(i)?;
 
+    // Lines that start like a recipe line can't start or end a define
+    if i.chars().next() == Some(command_char) {
+        return Ok((
+            next_lines,
+            DefineLine {
+                action: DefineLineAction::Append,
+                content: ast,
+                location: location,
+            },
+        ));
+    }
+
     let (i, action) = pe_fix!(
         i,
         preceded!(
-- 
2.43.0


From a9de884e7fc6c3ab9b8e3dc84f199513680171c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 49/56] fix: a define in an untaken branch ends at its endef

---
 src/parsers/mod.rs          | 19 ++++++++++
 src/parsers/variable/mod.rs | 75 ++++++++++++++++++++++++++-----------
 2 files changed, 72 insertions(+), 22 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 3a84c4b..602ba3f 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -101,6 +101,9 @@ pub(crate) struct ParserState {
 
     /// Active define
     current_define: Option<DefineState>,
+
+    /// How deeply nested the defines in an untaken branch are, if we're inside of some
+    ignored_define_nesting: u32,
 }
 
 impl ParserState {
@@ -110,6 +113,7 @@ impl ParserState {
             ignoring: false,
             current_rule: None,
             current_define: None,
+            ignored_define_nesting: 0,
         }
     }
 
@@ -151,6 +155,18 @@ impl ParserState {
             }
         );
 
+        // The body of a define in an untaken branch can look like anything, for
+        // example like the end of that branch
+        if self.ignored_define_nesting > 0 {
+            let (i, nesting) = variable::skip_define_line(
+                i,
+                self.ignored_define_nesting,
+                engine.command_char,
+            );
+            self.ignored_define_nesting = nesting;
+            return Ok((i, ()));
+        }
+
         // First, check to see if we're about to try and parse a comment
         // TODO: validate that this is actually always an OK way to handle this,
         // since it diverges slightly from the GNU make behavior (which has
@@ -236,6 +252,9 @@ impl ParserState {
         }
 
         if self.ignoring {
+            if variable::starts_define(line.span(), engine.command_char) {
+                self.ignored_define_nesting = 1;
+            }
             // The parse state indicates that we should just ignore this line
             // We've already collapsed continuations, so just return immediately
             return Ok((i, ()));
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 8395267..c15b44d 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -425,39 +425,28 @@ fn parse_variable_assignment<'a>(
     ))
 }
 
-/// Parse a line inside a define
-pub(crate) fn parse_define_line<'a>(
-    i: BlockSpan<'a>,
-    command_char: char,
-) -> IResult<BlockSpan<'a>, DefineLine, ParseErrorKind> {
+/// Grab a line inside a define, along with its line ending
+fn grab_define_line(i: BlockSpan) -> (BlockSpan, BlockSpan) {
     use nom::{InputIter, InputTake};
 
-    // This parser operates outside of the context of things that have already grabbed lines
-    // TODO: maybe just grab a whole define in here? Don't bother with trying to
-    // round-trip it through the processing function above
-    // This also uses a specialized version of makefile_grab_line, since we
+    // This is a specialized version of makefile_grab_line, since we
     // actually need the line endings to stay intact. Comments are part of the
     // text being defined, so they don't end the line.
     let line_length = i
         .iter_indices()
         .find(|&(_, c)| c == '\n')
         .map_or(i.len(), |(idx, _)| idx + 1);
-    let (next_lines, i) = i.take_split(line_length);
-
-    debug!("Parsing define line {:?}", i.into_string());
-    let location = i.location().expect("There should be content on the line");
-    let (_, ast) = parse_ast(i)?;
+    i.take_split(line_length)
+}
 
+/// Figure out whether a line inside a define starts or ends another one
+fn parse_define_line_action<'a>(
+    i: BlockSpan<'a>,
+    command_char: char,
+) -> IResult<BlockSpan<'a>, DefineLineAction, ParseErrorKind> {
     // Lines that start like a recipe line can't start or end a define
     if i.chars().next() == Some(command_char) {
-        return Ok((
-            next_lines,
-            DefineLine {
-                action: DefineLineAction::Append,
-                content: ast,
-                location: location,
-            },
-        ));
+        return Ok((i, DefineLineAction::Append));
     }
 
     let (i, action) = pe_fix!(
@@ -481,6 +470,24 @@ pub(crate) fn parse_define_line<'a>(
         return super::fail_out(i, ParseErrorKind::ExtraTokensAfter("endef"));
     }
 
+    Ok((i, action))
+}
+
+/// Parse a line inside a define
+pub(crate) fn parse_define_line<'a>(
+    i: BlockSpan<'a>,
+    command_char: char,
+) -> IResult<BlockSpan<'a>, DefineLine, ParseErrorKind> {
+    // This parser operates outside of the context of things that have already grabbed lines
+    // TODO: maybe just grab a whole define in here? Don't bother with trying to
+    // round-trip it through the processing function above
+    let (next_lines, i) = grab_define_line(i);
+
+    debug!("Parsing define line {:?}", i.into_string());
+    let location = i.location().expect("There should be content on the line");
+    let (_, ast) = parse_ast(i)?;
+    let (_, action) = parse_define_line_action(i, command_char)?;
+
     Ok((
         next_lines,
         DefineLine {
@@ -490,3 +497,27 @@ pub(crate) fn parse_define_line<'a>(
         },
     ))
 }
+
+/// Does this line start a define?
+pub(crate) fn starts_define(i: BlockSpan, command_char: char) -> bool {
+    match parse_define_line_action(i, command_char) {
+        Ok((_, DefineLineAction::IncreaseNesting)) => parse_assignment_operator(i).is_err(),
+        _ => false,
+    }
+}
+
+/// Skip a line inside a define that isn't going to be set. Returns how deeply
+/// nested the defines are after that line.
+pub(crate) fn skip_define_line<'a>(
+    i: BlockSpan<'a>,
+    nesting: u32,
+    command_char: char,
+) -> (BlockSpan<'a>, u32) {
+    let (next_lines, i) = grab_define_line(i);
+    let nesting = match parse_define_line_action(i, command_char) {
+        Ok((_, DefineLineAction::IncreaseNesting)) => nesting + 1,
+        Ok((_, DefineLineAction::DecreaseNesting)) => nesting - 1,
+        _ => nesting,
+    };
+    (next_lines, nesting)
+}
-- 
2.43.0


From a1d86a6e34b4b92700213fc975fab1f57e57c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:43 +0000
Subject: [PATCH 50/56] fix: expand the name of a define without an operator,
 too

---
 src/parsers/variable/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index c15b44d..47d89f3 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -164,8 +164,6 @@ pub(crate) fn parse_line<'a>(
     names: &mut crate::NameCache,
     context: &mut crate::Engine,
 ) -> IResult<BlockSpan<'a>, VariableAction, ParseErrorKind> {
-    use nom::Slice;
-
     #[derive(Debug, Copy, Clone)]
     enum Modifier {
         Export,
@@ -266,8 +264,10 @@ pub(crate) fn parse_line<'a>(
                     }
                 }
                 // Failing that, just assume the whole thing is one big recursive variable name
-                let variable_name = names.intern_variable_name(i.into_string().trim().into());
-                let rest = i.slice(i.len()..);
+                let (rest, name_ast) = parse_ast(i)?;
+                let variable_name = name_ast.eval(names, context);
+                let variable_name = variable_name.into_string().trim().into();
+                let variable_name = names.intern_variable_name(variable_name);
                 return Ok((
                     rest,
                     VariableAction {
-- 
2.43.0


From cff196cc0752f9b62d074a7558a04129801fcb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:56 +0000
Subject: [PATCH 51/56] fix: semicolons inside of references don't start a
 recipe

---
 src/parsers/targets/mod.rs | 42 ++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 553f605..e576171 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -93,6 +93,39 @@ enum MWordEnd {
     VarAssign,
 }
 
+/// Tells which characters of a line are part of variable references
+#[derive(Default)]
+struct ReferenceTracker {
+    after_dollar: bool,
+    brackets: Option<(char, char)>,
+    depth: usize,
+}
+
+impl ReferenceTracker {
+    /// Is the next character of the line inside of a reference?
+    fn contains_next(&mut self, c: char) -> bool {
+        if let Some((open, close)) = self.brackets {
+            if c == open {
+                self.depth += 1;
+            } else if c == close {
+                self.depth -= 1;
+            }
+            if self.depth == 0 {
+                self.brackets = None;
+            }
+            return true;
+        }
+
+        let inside = self.after_dollar;
+        self.after_dollar = c == '$' && !inside;
+        if inside && (c == '(' || c == '{') {
+            self.brackets = Some((c, if c == '(' { ')' } else { '}' }));
+            self.depth = 1;
+        }
+        inside
+    }
+}
+
 /// This function parses a recipe line. It should be handed a reference to the
 /// line, uncollapsed, since we handle collapsing internally
 pub(crate) fn parse_line<'a>(
@@ -106,14 +139,15 @@ pub(crate) fn parse_line<'a>(
     // TODO: separate line collapse from line acquisition
     let (rest, line) = makefile_line(i, super::ParserCompliance::GNU, false)?;
 
-    // The behavior here in GNU Make is really weird. Why does it consider '$'
-    // characters to be semicolons? I'm pretty sure that's the behavior of the
-    // implementation in GNU Make but we don't replicate it here because it Causes Problems
+    // Semicolons inside of variable references belong to those, like in GNU Make
     // (~line 1000 in read.c from version 4.2.1).
     //
     // line is the storage backing "line_next" which is our model for lb_next
     // post_semi_content is essentially cmdleft
-    let (line, semip) = match makefile_take_until_unquote(line.span(), |c| (c == ';' || c == '#')) {
+    let mut references = ReferenceTracker::default();
+    let (line, semip) = match makefile_take_until_unquote(line.span(), |c| {
+        !references.contains_next(c) && (c == ';' || c == '#')
+    }) {
         (pre, Some((stopchar, post))) => {
             if stopchar.iter_elements().next() == Some('#') {
                 (pre, None)
-- 
2.43.0


From 06dd76006e69a0becad6b7dfdd96bf5ad23d3fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:12 +0000
Subject: [PATCH 52/56] fix: arguments of a conditional in an untaken branch
 don't matter

---
 src/parsers/conditional/mod.rs | 64 ++++++++++++++++++++++------------
 src/parsers/mod.rs             |  5 +++
 2 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index d3a7a09..7908f6f 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -33,6 +33,15 @@ impl Conditional {
 }
 
 impl crate::parsers::ParserState {
+    /// Open a conditional that's itself in an untaken branch. Its arguments
+    /// don't matter, we only need to know about it to match up the else and endif.
+    pub(super) fn open_ignored_conditional(&mut self) {
+        self.conditionals.push(super::ConditionalState {
+            interpretation: super::ConditionalInterpretation::NotExecuting,
+            seen_else: false,
+        });
+    }
+
     /// Handle a conditional that came back from line parsing
     pub(super) fn handle_conditional(
         &mut self,
@@ -42,16 +51,6 @@ impl crate::parsers::ParserState {
     ) -> Result<(), ParseErrorKind> {
         let conditional_is_inverted = conditional.is_inverted();
         match conditional {
-            Conditional::IfEq(_, _) | Conditional::IfNEq(_, _) if self.ignoring => {
-                // Text in an untaken branch is never expanded. We only need to
-                // know about this conditional to match up the else and endif.
-                self.conditionals.push(super::ConditionalState {
-                    interpretation: super::ConditionalInterpretation::NotExecuting,
-                    seen_else: false,
-                });
-
-                Ok(())
-            }
             Conditional::IfEq(a, b) | Conditional::IfNEq(a, b) => {
                 let a = a.eval(names, engine);
                 let b = b.eval(names, engine);
@@ -122,20 +121,29 @@ pub(super) fn parse_line<'a>(
     }
 }
 
-/// Internal parser of the makefile line. Maybe this should be exposed at a high
-/// level to avoid duplicate work computing the collapsed line?
-fn parse_line_internal<'a>(
-    input: BlockSpan<'a>,
-) -> IResult<BlockSpan<'a>, Conditional, ParseErrorKind> {
-    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
-    enum ConditionalType {
-        IfDef,
-        IfNDef,
-        IfEq,
-        IfNEq,
-        Else,
-        EndIf,
+/// Does this line open a conditional?
+pub(super) fn opens_conditional(line: BlockSpan) -> bool {
+    match parse_keyword(line) {
+        Ok((_, ConditionalType::Else)) | Ok((_, ConditionalType::EndIf)) | Err(_) => false,
+        Ok(_) => true,
     }
+}
+
+/// The keywords conditionals start with
+#[derive(Copy, Clone, Debug, PartialEq, Eq)]
+enum ConditionalType {
+    IfDef,
+    IfNDef,
+    IfEq,
+    IfNEq,
+    Else,
+    EndIf,
+}
+
+/// Parse the keyword of a conditional and the blanks after it
+fn parse_keyword<'a>(
+    input: BlockSpan<'a>,
+) -> IResult<BlockSpan<'a>, ConditionalType, ParseErrorKind> {
     let (input, tag) = preceded!(
         input,
         makefile_whitespace,
@@ -165,6 +173,16 @@ fn parse_line_internal<'a>(
     }
     let (input, _) = makefile_whitespace(input)?;
 
+    Ok((input, tag))
+}
+
+/// Internal parser of the makefile line. Maybe this should be exposed at a high
+/// level to avoid duplicate work computing the collapsed line?
+fn parse_line_internal<'a>(
+    input: BlockSpan<'a>,
+) -> IResult<BlockSpan<'a>, Conditional, ParseErrorKind> {
+    let (input, tag) = parse_keyword(input)?;
+
     debug!("Tag is {:?}", tag);
     debug!("Rest is {:?}", input.into_string());
 
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 602ba3f..1dc3a7b 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -247,6 +247,11 @@ impl ParserState {
 
         // Variables can have names like `else`, so assignments take precedence
         if !variable::is_conditional_keyword_assignment(line.span()) {
+            if self.ignoring && conditional::opens_conditional(line.span()) {
+                self.open_ignored_conditional();
+                return Ok((i, ()));
+            }
+
             run_line_parser!(conditional::parse_line(line.span()), |conditional| self
                 .handle_conditional(conditional, names, engine));
         }
-- 
2.43.0


From e29a1be13bd215e9a9703fda2e2c44c4dda2f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:11 +0000
Subject: [PATCH 53/56] fix: recipe lines in an untaken branch aren't parsed

---
 src/parsers/mod.rs         | 21 ++++++++++++---------
 src/parsers/recipe_line.rs | 26 +++++++++++++++-----------
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 1dc3a7b..884ff42 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -23,7 +23,7 @@ pub(crate) mod targets;
 pub(crate) mod variable;
 
 use self::error_utils::lift_collapsed_span_error;
-use self::recipe_line::recipe_line;
+use self::recipe_line::{grab_recipe_line, recipe_line};
 
 /// Whether this conditional allows or disallows interpretation of the makefile lines currently.
 /// the moral equivalent of this enum (the char *ignoring in the conditional code for GNU make)
@@ -183,15 +183,18 @@ impl ParserState {
         if self.currently_processing_rule() {
             // We only check for command lines when we can reasonably expect
             // that we're currently processing a recipe
-            run_parser!(recipe_line(i, engine.command_char), |line| {
-                // Push the line. This is safe since we only run this parser if
-                // we're currently processing a rule. Lines in the untaken
-                // branch of a conditional aren't part of the recipe.
-                if !self.ignoring {
+            if self.ignoring {
+                // Lines in the untaken branch of a conditional aren't part of
+                // the recipe, so it doesn't matter what they look like.
+                run_parser!(grab_recipe_line(i, engine.command_char), |_| Ok(()));
+            } else {
+                run_parser!(recipe_line(i, engine.command_char), |line| {
+                    // Push the line. This is safe since we only run this parser if
+                    // we're currently processing a rule.
                     self.push_command_line(line);
-                }
-                Ok(())
-            });
+                    Ok(())
+                });
+            }
         } else if self.current_define.is_some() {
             // If we're currently parsing a line inside a define, handle that
             run_parser!(
diff --git a/src/parsers/recipe_line.rs b/src/parsers/recipe_line.rs
index 613a4bf..61600b8 100644
--- a/src/parsers/recipe_line.rs
+++ b/src/parsers/recipe_line.rs
@@ -2,7 +2,7 @@
 
 use super::{ends_with_backslash, lift_collapsed_span_error, makefile_grab_line};
 use crate::ast::AstNode;
-use crate::evaluated::{BlockSpan, ContentReference};
+use crate::evaluated::{Block, BlockSpan, ContentReference};
 use crate::parsers::ast::parse_ast;
 use crate::ParseErrorKind;
 use nom::IResult;
@@ -13,6 +13,17 @@ pub(super) fn recipe_line<'a>(
     i: BlockSpan<'a>,
     command_char: char,
 ) -> IResult<BlockSpan<'a>, AstNode, ParseErrorKind> {
+    let (rest, line) = grab_recipe_line(i, command_char)?;
+    let (_, ast) = parse_ast(line.span()).map_err(|e| lift_collapsed_span_error(e, i))?;
+
+    Ok((rest, ast))
+}
+
+/// Grabs the text of a recipe line, without parsing it
+pub(super) fn grab_recipe_line<'a>(
+    i: BlockSpan<'a>,
+    command_char: char,
+) -> IResult<BlockSpan<'a>, Arc<Block>, ParseErrorKind> {
     macro_rules! grab_command_line(
         ($i:expr ) => { grab_command_line!($i , ) };
         ($i:expr, ) => {
@@ -30,12 +41,9 @@ pub(super) fn recipe_line<'a>(
         grab_command_line!()
     )?;
 
-    let line_start = line;
-
     // If the line has a comment, stop the line (and processing)
     if end_reason == super::LineEndReason::Comment {
-        let (_, ast) = parse_ast(line)?;
-        return Ok((i, ast));
+        return Ok((i, line.to_new_block()));
     }
 
     let mut line = line.to_new_block();
@@ -58,9 +66,7 @@ pub(super) fn recipe_line<'a>(
 
                 // If the line has a comment, stop the line (and processing)
                 if end_reason == super::LineEndReason::Comment {
-                    let (_, ast) = parse_ast(line.span())
-                        .map_err(|e| lift_collapsed_span_error(e, line_start))?;
-                    return Ok((i, ast));
+                    return Ok((i, line));
                 }
             }
             Err(_) => {
@@ -70,9 +76,7 @@ pub(super) fn recipe_line<'a>(
         }
     }
 
-    let (_, ast) = parse_ast(line.span()).map_err(|e| lift_collapsed_span_error(e, line_start))?;
-
-    Ok((i, ast))
+    Ok((i, line))
 }
 
 #[cfg(test)]
-- 
2.43.0


From b616b35c350e8dad7da543fe90401bc47eb5ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:39 +0000
Subject: [PATCH 54/56] fix: +, ? and ! inside of a variable name do not end it

Only += ?= and != end the name; libstdc++ is a fine name for a variable.
---
 src/parsers/variable/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 47d89f3..2548b3d 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -312,7 +312,13 @@ fn variable_name_length(i: BlockSpan) -> usize {
                     }
                 }
             }
-            ':' | '=' | '!' | '?' | '+' => return idx,
+            ':' | '=' => return idx,
+            // part of the name, unless they start an operator
+            '!' | '?' | '+' => {
+                if let Some((_, '=')) = chars.clone().next() {
+                    return idx;
+                }
+            }
             c if c.is_whitespace() => return idx,
             _ => {}
         }
-- 
2.43.0


From fbd3ff126a16c892629119ec148e3083cbe71154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:40 +0000
Subject: [PATCH 55/56] fix: tell drive letters from other colons by the right
 characters

The letter is the character before the colon, the blank the one before that.
All other colons before a slash do end the targets, as in 'all :/abs/dep'.
---
 src/parsers/targets/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index e576171..7af8793 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -642,12 +642,12 @@ fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'
                     }
                 } else {
                     // There were at least 2 prior characters, grab them
-                    let (ch1, ch2) = pre
+                    let (before, letter) = pre
                         .span()
                         .iter_elements()
                         .fold(('\0', '\0'), |(_, ch1), ch2| (ch1, ch2));
                     // Check condition 1 and 2
-                    if !ch1.is_alphabetic() || !(ch2.is_whitespace() || ch2 == '(') {
+                    if !letter.is_alphabetic() || !(before.is_whitespace() || before == '(') {
                         // Condition 1 or 2 failed, not a drive spec
                         return DrivespecSearchResult::FoundColon {
                             pre_colon: content,
-- 
2.43.0


From a5131becfb3be648c28978f9f3f5eace1570dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:57 +0000
Subject: [PATCH 56/56] fix: only blanks of ASCII separate words and end names

---
 src/parsers/file_sequence.rs |  4 ++--
 src/parsers/mod.rs           |  5 +++--
 src/parsers/targets/mod.rs   |  6 +++---
 src/parsers/variable/mod.rs  | 12 ++++++------
 4 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/parsers/file_sequence.rs b/src/parsers/file_sequence.rs
index 1ee0de4..646c426 100644
--- a/src/parsers/file_sequence.rs
+++ b/src/parsers/file_sequence.rs
@@ -2,7 +2,7 @@
 //! This includes the implementation of `parse_file_seq` and supporting
 //! functionality, including glob expansion
 use crate::evaluated::{Block, BlockSpan};
-use crate::parsers::makefile_whitespace;
+use crate::parsers::{is_word_separator, makefile_whitespace};
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -66,7 +66,7 @@ pub(crate) fn parse_file_seq<'a>(
 
     while remaining_content.len() > 0 {
         match crate::parsers::makefile_take_until_unquote(remaining_content, |c| {
-            c.is_whitespace() || c == '\0' || options.extra_stopchars.find(c).is_some()
+            is_word_separator(c) || c == '\0' || options.extra_stopchars.find(c).is_some()
         }) {
             (pre, Some((_, post))) => {
                 if pre.len() > 0 {
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 884ff42..fd265a6 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -414,14 +414,15 @@ fn makefile_whitespace<T: nom::InputTakeAtPosition<Item = char>>(
 /// Keywords use this to make sure they aren't just the prefix of a longer word.
 fn makefile_word_end<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
     match i.chars().next() {
-        Some(c) if !c.is_whitespace() => {
+        Some(c) if !is_word_separator(c) => {
             error_out(i, ParseErrorKind::InternalFailure("not at the end of a word"))
         }
         _ => Ok((i, ())),
     }
 }
 
-/// Words in expanded text may be separated by line ends and the like as well
+/// Words in expanded text may be separated by line ends and the like as well,
+/// but not by blanks from outside of ASCII, those are part of a word
 fn is_word_separator(c: char) -> bool {
     c.is_ascii_whitespace() || c == '\x0b'
 }
diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 7af8793..27b9517 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -5,8 +5,8 @@ use crate::evaluated::{Block, BlockSpan, ContentReference};
 use crate::parsers::ast::parse_ast;
 use crate::parsers::variable::parse_line as parse_variable_line;
 use crate::parsers::{
-    fail_out, lift_collapsed_span_error, makefile_line, makefile_take_until_unquote,
-    makefile_whitespace, ProtoRule,
+    fail_out, is_word_separator, lift_collapsed_span_error, makefile_line,
+    makefile_take_until_unquote, makefile_whitespace, ProtoRule,
 };
 use crate::{Engine, NameCache, ParseErrorKind};
 use nom::IResult;
@@ -647,7 +647,7 @@ fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'
                         .iter_elements()
                         .fold(('\0', '\0'), |(_, ch1), ch2| (ch1, ch2));
                     // Check condition 1 and 2
-                    if !letter.is_alphabetic() || !(before.is_whitespace() || before == '(') {
+                    if !letter.is_alphabetic() || !(is_word_separator(before) || before == '(') {
                         // Condition 1 or 2 failed, not a drive spec
                         return DrivespecSearchResult::FoundColon {
                             pre_colon: content,
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 2548b3d..07ef38a 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -1,7 +1,7 @@
 //! Parser for variable definitions
 
 // #SPC-P-Variable
-use super::{error_out, makefile_whitespace, makefile_word_end};
+use super::{error_out, is_word_separator, makefile_whitespace, makefile_word_end};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
@@ -237,7 +237,7 @@ pub(crate) fn parse_line<'a>(
                             // TODO: propagate sensitivity from the name?
                             let (_, name_ast) = parse_ast(variable_name)?;
                             let variable_name = name_ast.eval(names, context);
-                            let variable_name = variable_name.into_string().trim().into();
+                            let variable_name = variable_name.into_string().trim_matches(is_word_separator).into();
                             let variable_name = names.intern_variable_name(variable_name);
                             return Ok((
                                 trailing,
@@ -266,7 +266,7 @@ pub(crate) fn parse_line<'a>(
                 // Failing that, just assume the whole thing is one big recursive variable name
                 let (rest, name_ast) = parse_ast(i)?;
                 let variable_name = name_ast.eval(names, context);
-                let variable_name = variable_name.into_string().trim().into();
+                let variable_name = variable_name.into_string().trim_matches(is_word_separator).into();
                 let variable_name = names.intern_variable_name(variable_name);
                 return Ok((
                     rest,
@@ -319,7 +319,7 @@ fn variable_name_length(i: BlockSpan) -> usize {
                     return idx;
                 }
             }
-            c if c.is_whitespace() => return idx,
+            c if is_word_separator(c) => return idx,
             _ => {}
         }
     }
@@ -385,7 +385,7 @@ fn parse_variable_assignment<'a>(
     let (post_value, mut value_ast) = parse_ast(value_segment)?;
 
     let variable_name = name_ast.eval(names, context);
-    let variable_name = variable_name.into_string().trim().into();
+    let variable_name = variable_name.into_string().trim_matches(is_word_separator).into();
     let variable_name = names.intern_variable_name(variable_name);
 
     // Appending to a simply expanded variable expands the new text right away,
@@ -468,7 +468,7 @@ fn parse_define_line_action<'a>(
             )
         )
     )?;
-    let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
+    let (i, _) = pe_fix!(i, take_while!(is_word_separator))?;
 
     // Only a comment may follow an endef
     let extra_tokens = i.len() != 0 && i.chars().next() != Some('#');
-- 
2.43.0

