From c3bebd2d8beb4ab8a5c56408366ee944ffb84332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 01/10] fix: allow comments before RUN, CMD and ENTRYPOINT
 arguments

A comment between the keyword and the arguments (after a line continuation)
was taken for the argument token and failed the whole parse.
---
 src/instructions/cmd.rs        | 5 ++++-
 src/instructions/entrypoint.rs | 5 ++++-
 src/instructions/run.rs        | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/instructions/cmd.rs b/src/instructions/cmd.rs
index 523a71c..2a9f510 100644
--- a/src/instructions/cmd.rs
+++ b/src/instructions/cmd.rs
@@ -23,7 +23,10 @@ pub struct CmdInstruction {
 impl CmdInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<CmdInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    // comments may precede the arguments, e.g. after a line continuation
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::cmd_exec => Ok(CmdInstruction {
diff --git a/src/instructions/entrypoint.rs b/src/instructions/entrypoint.rs
index 9d68fce..8f0aa9b 100644
--- a/src/instructions/entrypoint.rs
+++ b/src/instructions/entrypoint.rs
@@ -23,7 +23,10 @@ pub struct EntrypointInstruction {
 impl EntrypointInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<EntrypointInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    // comments may precede the arguments, e.g. after a line continuation
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::entrypoint_exec => Ok(EntrypointInstruction {
diff --git a/src/instructions/run.rs b/src/instructions/run.rs
index 36a8991..e880976 100644
--- a/src/instructions/run.rs
+++ b/src/instructions/run.rs
@@ -23,7 +23,10 @@ pub struct RunInstruction {
 impl RunInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<RunInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    // comments may precede the arguments, e.g. after a line continuation
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::run_exec => Ok(RunInstruction {
-- 
2.43.0


From afc693828d6c9e51c7cb45c34f79d1527b860e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 02/10] fix: require every digest character to be a hex digit

The pattern was unanchored, so any 64 characters containing at least one hex
digit were accepted as a sha256 digest.
---
 src/instructions/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/from.rs b/src/instructions/from.rs
index 8118bc5..8ae14af 100644
--- a/src/instructions/from.rs
+++ b/src/instructions/from.rs
@@ -73,7 +73,7 @@ impl FromInstruction {
   pub(crate) fn from_record(record: Pair, index: usize) -> Result<FromInstruction> {
     lazy_static! {
       static ref HEX: Regex =
-          Regex::new(r"[0-9a-fA-F]+").unwrap();
+          Regex::new(r"^[0-9a-fA-F]+$").unwrap();
     }
 
     let span = Span::from_pair(&record);
-- 
2.43.0


From 529da6479a9214a82fef06aa69732bcaf3373638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 03/10] fix: look global ARGs up in the list of global ARGs

get_global_arg gave up at the first instruction that is not an ARG, although
other instructions may stand between the global ARGs.
---
 src/dockerfile_parser.rs | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/dockerfile_parser.rs b/src/dockerfile_parser.rs
index 6387e39..cca42e3 100644
--- a/src/dockerfile_parser.rs
+++ b/src/dockerfile_parser.rs
@@ -399,20 +399,7 @@ impl Dockerfile {
   /// Attempts to find a global argument by name. Returns None if no global ARG
   /// with the given name exists.
   pub fn get_global_arg(&self, name: &str) -> Option<&ArgInstruction> {
-    for ins in &self.instructions {
-      match ins {
-        Instruction::Arg(a) => {
-          if a.name.content == name {
-            return Some(a);
-          } else {
-            continue
-          }
-        },
-        _ => return None
-      }
-    }
-
-    None
+    self.global_args.iter().find(|a| a.name.content == name)
   }
 }
 
-- 
2.43.0


From 12649a546913ba0a06829a865a479d6998ccee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 04/10] fix: remove escaped CRLF line breaks from quoted labels

The grammar accepts an escaped CRLF inside a quoted string, but only escaped
LF was removed before unescaping, which then failed.
---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e5c66c1..4b5f1b8 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -46,11 +46,11 @@ pub(crate) fn parse_string(field: &Pair) -> Result<SpannedString> {
   })
 }
 
-/// Removes escaped line breaks (\\\n) from a string
+/// Removes escaped line breaks (\\\n or \\\r\n) from a string
 ///
 /// This should be used to clean any input from the any_breakable rule
 pub(crate) fn clean_escaped_breaks(s: &str) -> String {
-  s.replace("\\\n", "")
+  s.replace("\\\r\n", "").replace("\\\n", "")
 }
 
 /// A string that may be broken across many lines or an array of strings.
-- 
2.43.0


From 3a969761ed7eaff71385335ad289d1b20a3ee3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:48 +0000
Subject: [PATCH 05/10] fix: convert &Instruction to &EntrypointInstruction

Every other instruction type converts by reference; ENTRYPOINT only offered
the conversion by value.
---
 src/instructions/entrypoint.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/instructions/entrypoint.rs b/src/instructions/entrypoint.rs
index 8f0aa9b..62beefa 100644
--- a/src/instructions/entrypoint.rs
+++ b/src/instructions/entrypoint.rs
@@ -66,6 +66,21 @@ impl EntrypointInstruction {
   }
 }
 
+impl<'a> TryFrom<&'a Instruction> for &'a EntrypointInstruction {
+  type Error = Error;
+
+  fn try_from(instruction: &'a Instruction) -> std::result::Result<Self, Self::Error> {
+    if let Instruction::Entrypoint(e) = instruction {
+      Ok(e)
+    } else {
+      Err(Error::ConversionError {
+        from: format!("{:?}", instruction),
+        to: "EntrypointInstruction".into()
+      })
+    }
+  }
+}
+
 impl TryFrom<Instruction> for EntrypointInstruction {
   type Error = Error;
 
-- 
2.43.0


From fd4b5f8f72e3724e551f784a413f52777626f5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:54 +0000
Subject: [PATCH 06/10] fix: don't treat shell text starting with # as a
 comment

A comment is only recognised after a line continuation. Arguments that start
with a # used to swallow the whole next line, e.g. 'RUN # foo' followed by
another instruction.
---
 src/dockerfile_parser.pest | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 39da77e..7ca8bb8 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -68,14 +68,15 @@ any_content = @{
   )+
 }
 any_breakable = ${
-  (
-    // can be any comment string (no line continuation required)
-    comment_line ~ any_breakable?
-  ) | (
-    // ... OR some piece of content, requiring a continuation EXCEPT on the
-    // final line
-    any_content ~ (line_continuation ~ any_breakable)?
-  )
+  // some piece of content, requiring a continuation EXCEPT on the final line
+  any_content ~ (
+    line_continuation ~ (
+      // after a continuation, there can be any number of comment lines (which
+      // don't need a continuation themselves)
+      comment_line+ ~ any_breakable? |
+      any_breakable
+    )
+  )?
 }
 
 // consumes any character until the end of the line
-- 
2.43.0


From 71951e6c8615df8dd3af34232f91098c83956532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:19 +0000
Subject: [PATCH 07/10] fix: don't recurse for each continued line of shell
 text

Parsing an instruction with about 20000 continued lines overflowed the stack
and aborted the process.
---
 src/util.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 4b5f1b8..fa2cb52 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -252,9 +252,11 @@ impl From<((usize, usize), &str)> for BreakableString {
 fn parse_any_breakable_inner(pair: Pair) -> Result<Vec<BreakableStringComponent>> {
   let mut components = Vec::new();
 
-  for field in pair.into_inner() {
+  // each continuation nests another any_breakable: visit all of them in order
+  // rather than recursively, as there can be any number
+  for field in pair.into_inner().flatten() {
     match field.as_rule() {
-      Rule::any_breakable => components.extend(parse_any_breakable_inner(field)?),
+      Rule::any_breakable => continue,
       Rule::comment => components.push(SpannedComment {
         span: (&field).into(),
         content: field.as_str().to_string(),
-- 
2.43.0


From 756ad9b87b4d8c3cd55e4b1f90ab51b6865c4f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 08/10] fix: only use the exec form when nothing follows the
 array

RUN, CMD and ENTRYPOINT arguments that merely start with an array of strings,
e.g. 'RUN ["a"] && b', made parsing fail instead of being in shell form.
---
 src/dockerfile_parser.pest | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 7ca8bb8..19d3c77 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -79,6 +79,9 @@ any_breakable = ${
   )?
 }
 
+// the remainder of an instruction after its last argument
+end_of_args = _{ arg_ws_maybe ~ (NEWLINE | EOI) }
+
 // consumes any character until the end of the line
 any_eol = _{ (!NEWLINE ~ ANY)* }
 
@@ -128,15 +131,15 @@ label_single = { arg_ws ~ (label_single_quoted_name | label_single_name) ~ arg_w
 label = { ^"label" ~ (label_single | (arg_ws ~ label_pair?)+) }
 
 run_shell = @{ any_breakable }
-run_exec = { string_array }
+run_exec = { string_array ~ &end_of_args }
 run = { ^"run" ~ arg_ws ~ (run_exec | run_shell) }
 
 entrypoint_shell = @{ any_breakable }
-entrypoint_exec = { string_array }
+entrypoint_exec = { string_array ~ &end_of_args }
 entrypoint = { ^"entrypoint" ~ arg_ws ~ (entrypoint_exec | entrypoint_shell) }
 
 cmd_shell = @{ any_breakable }
-cmd_exec = { string_array }
+cmd_exec = { string_array ~ &end_of_args }
 cmd = { ^"cmd" ~ arg_ws ~ (cmd_exec | cmd_shell) }
 
 copy_flag_name = @{ ASCII_ALPHA+ }
-- 
2.43.0


From 973e8dc03ed4e1e110d6372ae50e052c406b4455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 09/10] fix: end label names at a line continuation

The name of a space-separated LABEL pair could not be followed directly by a
line continuation, unlike the arguments of other instructions.
---
 src/dockerfile_parser.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 19d3c77..3046462 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -92,7 +92,7 @@ any_whitespace = _{ (!(NEWLINE | EOI | arg_ws) ~ ANY)+ }
 identifier_whitespace = _{ (!ws ~ (ASCII_ALPHANUMERIC | "_" | "-"))+ }
 
 // consumes until whitespace or = (for key in key=value pairs)
-any_equals = _{ (!(NEWLINE | ws | "=") ~ ANY)+ }
+any_equals = _{ (!(NEWLINE | arg_ws | "=") ~ ANY)+ }
 
 // parses ["foo", "bar", "baz"] with excessive escaping
 string_array = _{
-- 
2.43.0


From 42701a0eabf06232fb63d1a12ba435972bd871f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:21 +0000
Subject: [PATCH 10/10] fix: allow a line continuation directly after other
 instructions' names

Parsing failed when the name of an instruction that is not modelled was
directly followed by a line continuation, e.g. 'EXPOSE\' and '  80'.
---
 src/dockerfile_parser.pest | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 3046462..a632b0e 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -69,14 +69,17 @@ any_content = @{
 }
 any_breakable = ${
   // some piece of content, requiring a continuation EXCEPT on the final line
-  any_content ~ (
-    line_continuation ~ (
-      // after a continuation, there can be any number of comment lines (which
-      // don't need a continuation themselves)
-      comment_line+ ~ any_breakable? |
-      any_breakable
-    )
-  )?
+  any_content ~ any_continuation?
+}
+
+// a line continuation and everything that is continued by it
+any_continuation = _{
+  line_continuation ~ (
+    // there can be any number of comment lines (which don't need a continuation
+    // themselves)
+    comment_line+ ~ any_breakable? |
+    any_breakable
+  )
 }
 
 // the remainder of an instruction after its last argument
@@ -159,5 +162,5 @@ env_single = {  arg_ws ~ env_name ~ arg_ws ~ (env_single_quoted_value | env_sing
 env = { ^"env" ~ (env_single | env_pairs) }
 
 misc_instruction = @{ ASCII_ALPHA+ }
-misc_arguments = @{ any_breakable }
+misc_arguments = ${ any_breakable | any_continuation }
 misc = { misc_instruction ~ misc_arguments }
-- 
2.43.0

