From 11b326835bcaf25f47b0b833f9a35e006a67b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 01/44] fix: stop makefile lines at their own line break

makefile_grab_line looked for the next '#' in the whole remaining input
before looking for a line break, so a comment anywhere later in a file
swallowed every line before it into one line. Windows line endings were
also never recognised, because \n was tried before \r\n.
---
 src/parsers/mod.rs | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index d5960db..2dc5985 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -310,30 +310,36 @@ pub fn makefile_grab_line<T>(input: T) -> IResult<T, (T, LineEndReason), ParseEr
 where
     T: Clone
         + Copy
-        + nom::AtEof
-        + nom::Slice<std::ops::Range<usize>>
         + nom::Slice<std::ops::RangeFrom<usize>>
         + nom::Slice<std::ops::RangeTo<usize>>
-        + nom::InputTake
         + nom::InputIter<Item = char>
-        + nom::Compare<&'static str>
-        + nom::InputLength
-        + nom::FindSubstring<&'static str>,
+        + nom::InputLength,
 {
-    fix_error!(
-        input,
-        ParseErrorKind,
-        alt_complete!(
-            take_until!("#") =>
-                { |l| (l, LineEndReason::Comment) }  |  // Comments
-            terminated!(take_until!("\n"), tag!("\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // UNIX line endings
-            terminated!(take_until!("\r\n"), tag!("\r\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // Windows line endings
-            nom::rest =>
-                { |l| (l, LineEndReason::EOF) }         // EOF
-        )
-    )
+    let mut last_char = None;
+    for (idx, c) in input.iter_indices() {
+        match c {
+            // Comments. The start of the comment is left in the input
+            '#' => return Ok((input.slice(idx..), (input.slice(..idx), LineEndReason::Comment))),
+            '\n' => {
+                let line_end = if last_char == Some('\r') {
+                    idx - 1 // Windows line endings
+                } else {
+                    idx // UNIX line endings
+                };
+                return Ok((
+                    input.slice(idx + 1..),
+                    (input.slice(..line_end), LineEndReason::LineBreak),
+                ));
+            }
+            c => last_char = Some(c),
+        }
+    }
+
+    // EOF
+    Ok((
+        input.slice(input.input_len()..),
+        (input, LineEndReason::EOF),
+    ))
 }
 
 named!(
-- 
2.43.0


From fa228be65aaf76d36b782489f0909f5b2eae6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:03 +0000
Subject: [PATCH 02/44] fix: record the last rule of a makefile

A rule is only moved to the database when a later line closes it, so the
final rule of every file, include and eval was dropped.
---
 src/lib.rs         | 3 +++
 src/parsers/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 06331ef..0e26f76 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -588,6 +588,9 @@ impl Engine {
             i = new_i;
         }
 
+        // The end of the input also ends the last rule
+        parser_state.close_rule(names, self);
+
         Ok(())
     }
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 2dc5985..5416f0e 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -287,7 +287,7 @@ impl ParserState {
     }
 
     /// Close out the currently open rule, if there is one
-    fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
+    pub(crate) fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
         debug!("Closing rule {:?}", self.current_rule);
         let current_rule = std::mem::replace(&mut self.current_rule, None);
         match current_rule {
-- 
2.43.0


From 1cd79de3e1ff1e44a17962de1628ea63808de086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:04 +0000
Subject: [PATCH 03/44] fix: recognise ${NAME} variable references

The curly form was introduced by a closing brace, so ${A} was read as the
variable "{" followed by literal text.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index 5c9eda9..fb17cb2 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -82,7 +82,7 @@ fn parse_var_ref<'a>(
         // Try the advanced variable references
         preceded!(fix_error!(ParseErrorKind, char!('(')),
                   apply!(advanced_var, dollar_location.clone(), '(', ')')) => { |l| l } |
-        preceded!(fix_error!(ParseErrorKind, char!('}')),
+        preceded!(fix_error!(ParseErrorKind, char!('{')),
                   apply!(advanced_var, dollar_location.clone(), '{', '}')) => { |l| l } |
         // Finally, just grab a single character and call it good
         fix_error!(ParseErrorKind, take!(1)) => {{
-- 
2.43.0


From e3fd84697ff2867f190acff665add48b2954526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 04/44] fix: keep the text following a function call

advanced_var returned the (empty) remainder of the function arguments
instead of what follows the closing bracket, dropping the rest of the line.
---
 src/parsers/ast/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index fb17cb2..659e5b6 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -123,7 +123,8 @@ fn advanced_var<'a>(
     let name_node = name_node.slice(..name_node.len() - 1);
 
     match function_call(name_node, dollar_location.clone()) {
-        Ok(v) => Ok(v),
+        // The call always consumes its whole text, continue after the closing bracket
+        Ok((_, call)) => Ok((i, call)),
         Err(Err::Failure(context)) => {
             if context.clone().into_error_kind()
                 == nom::ErrorKind::Custom(ParseErrorKind::InternalFailure("not a function call"))
-- 
2.43.0


From af7a0c40d640415807fe29444bc7a73db807fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:08 +0000
Subject: [PATCH 05/44] fix: require whitespace after a function name

makefile_whitespace also matches nothing, so variables whose name merely
starts with a function name ($(evalu), $(words_list)) were parsed as calls.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index 659e5b6..8469c27 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -162,7 +162,7 @@ fn function_call<'a>(
                 $i,
                 do_parse!(
                     pe_fix!(tag!($t))
-                        >> many1!(makefile_whitespace)
+                        >> pe_fix!(take_while1!(|c| c == ' ' || c == '\t'))
                         >> parsed: apply!($f, dollar_location.clone())
                         >> (parsed)
                 )
-- 
2.43.0


From 680c56f9876f4c8851b1dc2fe91b477bbdcbafd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:09 +0000
Subject: [PATCH 06/44] fix: accept simple assignments with an empty value

"A :=" panicked because an empty span has no location.
---
 src/parsers/variable/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 117d1d1..49bfe15 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -341,9 +341,10 @@ fn parse_variable_assignment<'a>(
     if assignment_type == AssignmentType::Simple {
         // Evaluate the value AST
         let contents = value_ast.eval(names, context);
+        // An empty value has no location of its own
         let location = value_segment
             .location()
-            .expect("value segment should have nonzero length");
+            .unwrap_or(crate::source_location::Location::Synthetic);
         value_ast = ast::preevaluated(location.into(), contents);
     }
 
-- 
2.43.0


From 4af968500e4ca03bda4d3f5f51c63dd1fc5dbab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:11 +0000
Subject: [PATCH 07/44] fix: make ?= keep the value of defined variables

SPC-P-Variable.conditional_set: the operator shall only have an effect if
the variable does not already have a value. It always overwrote it.
---
 src/parsers/mod.rs          |  4 ++++
 src/parsers/variable/mod.rs | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 5416f0e..f056051 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -60,6 +60,10 @@ pub(crate) struct DefineState {
 
     // How deeply nested the defines are
     nesting: u32,
+
+    // True when the body has no effect, because this is a `?=` define of a
+    // variable that already has a value
+    discard: bool,
 }
 
 /// Contains the information that may come out of a rule line. Note that this is
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 49bfe15..89ed5cf 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -86,15 +86,30 @@ impl crate::parsers::ParserState {
             unimplemented!("Handling of variable with modifiers {:?}", action.modifiers);
         }
 
+        // #SPC-P-Variable.conditional_set
+        // `?=` only has an effect if the variable doesn't have a value yet
+        let discard = match action.action {
+            Action::Define(ref parameters) => {
+                parameters.flavor == Flavor::Conditional
+                    && engine.database.get_variable(action.name).is_some()
+            }
+            Action::Append(_) => false,
+        };
+
         // If this is a define, just put the parser into define mode
         if action.modifiers.define {
             assert!(!self.current_define.is_some());
             self.current_define = Some(DefineState {
                 var: action.name,
                 nesting: 1,
+                discard,
             });
         }
 
+        if discard {
+            return Ok(());
+        }
+
         match action.action {
             Action::Define(parameters) => {
                 engine.database = engine.database.set_variable(action.name, parameters);
@@ -140,6 +155,10 @@ impl crate::parsers::ParserState {
             }
         }
 
+        if define.discard {
+            return Ok(());
+        }
+
         engine.database = engine.database.append_to_variable(
             define.var,
             action.location,
-- 
2.43.0


From 2de8e7b48a22d628d9f114c18f719f1d218238d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:12 +0000
Subject: [PATCH 08/44] fix: expand += operands of simple variables immediately

SPC-P-Variable.append_set_simple: the expansion of the right hand side is
appended to simply-expanded variables, not its AST.
---
 src/parsers/variable/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 89ed5cf..a90b358 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -357,7 +357,14 @@ fn parse_variable_assignment<'a>(
     let variable_name = variable_name.into_string().trim().into();
     let variable_name = names.intern_variable_name(variable_name);
 
-    if assignment_type == AssignmentType::Simple {
+    // #SPC-P-Variable.append_set_simple
+    let appends_to_simple = assignment_type == AssignmentType::Append
+        && context
+            .database
+            .get_variable(variable_name)
+            .map_or(false, |v| v.value.flavor == Flavor::Simple);
+
+    if assignment_type == AssignmentType::Simple || appends_to_simple {
         // Evaluate the value AST
         let contents = value_ast.eval(names, context);
         // An empty value has no location of its own
-- 
2.43.0


From 8ac5631f6d5b69d3ad75f05299e1172603ff425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 09/44] fix: resume interpretation after endif

Closing a conditional did not update the ignoring state, so everything
following a conditional whose last branch was inactive was ignored.
---
 src/parsers/conditional/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index b3ece0d..33310e3 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -94,6 +94,7 @@ impl crate::parsers::ParserState {
                     return Err(ParseErrorKind::UnattachedEndIf);
                 }
                 self.conditionals.pop();
+                self.update_ignoring();
 
                 Ok(())
             }
-- 
2.43.0


From 6174b28f6e06d69e9b68cf55471f29c7566bdacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 10/44] fix: ignore recipe lines in inactive conditional
 branches

---
 src/parsers/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index f056051..dd2558c 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -169,7 +169,9 @@ impl ParserState {
             run_parser!(recipe_line(i, engine.command_char), |line| {
                 // Push the line. This is safe since we only run this parser if
                 // we're currently processing a rule
-                self.push_command_line(line);
+                if !self.ignoring {
+                    self.push_command_line(line);
+                }
                 Ok(())
             });
         } else if self.current_define.is_some() {
-- 
2.43.0


From 89b69584a8199fbfc732553f391c188d968a9788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:17 +0000
Subject: [PATCH 11/44] fix: do not evaluate conditionals nested in inactive
 branches

The operands of a nested ifeq/ifneq were expanded even in an ignored
branch, so an $(eval ...) in them changed the database.
---
 src/parsers/conditional/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 33310e3..75b4e48 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -42,6 +42,16 @@ impl crate::parsers::ParserState {
     ) -> Result<(), ParseErrorKind> {
         let conditional_is_inverted = conditional.is_inverted();
         match conditional {
+            Conditional::IfEq(_, _) | Conditional::IfNEq(_, _) if self.ignoring => {
+                // Inside of an inactive branch. Track the nesting, but don't
+                // evaluate anything since that might have side effects
+                self.conditionals.push(super::ConditionalState {
+                    interpretation: super::ConditionalInterpretation::NotExecuting,
+                    seen_else: false,
+                });
+
+                Ok(())
+            }
             Conditional::IfEq(a, b) | Conditional::IfNEq(a, b) => {
                 let a = a.eval(names, engine);
                 let b = b.eval(names, engine);
-- 
2.43.0


From a44b3377f2506c7da7fa68b51ac3c987a35c2305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 12/44] fix: match substitution reference patterns at the end
 of words

The suffix was searched for from the start of the word, so words that
contain it more than once (b.c.c) were not replaced, and patterns that end
in % never matched at all.
---
 src/ast/text_functions.rs | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 086861c..321e32f 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -56,6 +56,7 @@ fn do_replacement<'a>(
     pre_replacement: BlockSpan,
     post_replacement: BlockSpan,
 ) -> Arc<Block> {
+    use nom::Slice;
     let mut output = Block::new(sensitivity, Default::default());
     let total_key_length = pre_key.len() + post_key.len();
     let mut first = true;
@@ -79,31 +80,16 @@ fn do_replacement<'a>(
             continue;
         }
 
-        let (token_remaining, captured) = match delimited!(
-            token,
-            tag!(pre_key),
-            recognize!(many1!(take_until!(post_key))),
-            tag!(post_key)
-        ) {
-            Ok(v) => v,
-            Err(_) => {
-                // A failure to match here indicates we couldn't find the key,
-                // so just push everything and move on
-                debug!("Skipping because capture failed");
-                Arc::make_mut(&mut output).push_all_contents(token);
-                continue;
-            }
-        };
-        if token_remaining.len() != 0 {
-            // We didn't make it to the end of the line when matching for the post key,
-            // so the key doesn't match. Push and continue
-            debug!(
-                "Skipping because capture was not completed {:?}",
-                token_remaining.into_string()
-            );
+        let token_text = token.into_string();
+        if !token_text.starts_with(pre_key) || !token_text.ends_with(post_key) {
+            debug!("Skipping because the key does not match");
             Arc::make_mut(&mut output).push_all_contents(token);
             continue;
         }
+        // The token is at least as long as the key, so the stem is what's
+        // between the two halves of the key
+        let captured = token.slice(pre_key.len()..token.len() - post_key.len());
+
         // Push the replacement
         Arc::make_mut(&mut output).push_all_contents(pre_replacement.clone());
         Arc::make_mut(&mut output).push_all_contents(captured.clone());
-- 
2.43.0


From 9984e6126c6238258c64408667eb3c94d609bbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:26 +0000
Subject: [PATCH 13/44] fix: measure spans in bytes consistently

Offsets and lengths of spans are bytes, but the character iterators skipped
and took that many characters, position() and slice_index() mixed the two
units and find_substring() indexed out of its buffer. Any non-ASCII text in
a makefile was mangled or caused a panic.
---
 src/evaluated/block_span.rs        |  7 +--
 src/evaluated/content_reference.rs | 31 +++++++++++--
 src/evaluated/nom/mod.rs           | 71 +++++++++++-------------------
 3 files changed, 56 insertions(+), 53 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index d96033f..0af1c11 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -148,7 +148,6 @@ pub struct Iter<'a> {
 
 #[derive(Clone, Debug)]
 enum BlockSpanCharIteratorInternal<'a> {
-    SkippedContentReference(std::iter::Skip<super::content_reference::ContentReferenceIter<'a>>),
     ContentReference(super::content_reference::ContentReferenceIter<'a>),
     NullIter(std::str::Chars<'a>),
 }
@@ -157,8 +156,8 @@ impl<'a> Iter<'a> {
     fn new(parent: &BlockSpan<'a>) -> Self {
         let mut cons_iter = parent.contents.iter();
         let char_iter: Box<BlockSpanCharIteratorInternal<'a>> = match cons_iter.next() {
-            Some(x) => Box::new(BlockSpanCharIteratorInternal::SkippedContentReference(
-                x.chars().skip(parent.offset),
+            Some(x) => Box::new(BlockSpanCharIteratorInternal::ContentReference(
+                x.chars_from(parent.offset),
             )),
             None => Box::new(BlockSpanCharIteratorInternal::NullIter("".chars())),
         };
@@ -183,7 +182,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
         }
 
         let mut tr = match self.char_iter.borrow_mut() {
-            BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
         };
@@ -192,7 +190,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
                 (*self.cons_iter.next()?).chars(),
             ));
             tr = match self.char_iter.borrow_mut() {
-                BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
             };
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 899cacc..7bd1f19 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -72,7 +72,24 @@ impl ContentReference {
 
     /// Iterate over the characters in this content reference
     pub fn chars(&self) -> ContentReferenceIter {
-        ContentReferenceIter(self.node.chars().skip(self.offset).take(self.length))
+        self.chars_from(0)
+    }
+
+    /// Iterate over the characters in this content reference, starting at the
+    /// given offset (in bytes)
+    pub(super) fn chars_from(&self, offset: usize) -> ContentReferenceIter {
+        let mut chars = self.node.chars();
+        let mut to_skip = self.offset + offset;
+        while to_skip > 0 {
+            match chars.next() {
+                Some(c) => to_skip -= c.len_utf8(),
+                None => break,
+            }
+        }
+        ContentReferenceIter {
+            chars,
+            remaining_bytes: self.length.saturating_sub(offset),
+        }
     }
 
     /// Iterate over the character indices in this content reference
@@ -137,13 +154,21 @@ impl ContentReference {
 
 /// An iterator over the characters in a content reference
 #[derive(Clone, Debug)]
-pub struct ContentReferenceIter<'a>(std::iter::Take<std::iter::Skip<super::nodes::Chars<'a>>>);
+pub struct ContentReferenceIter<'a> {
+    chars: super::nodes::Chars<'a>,
+    remaining_bytes: usize,
+}
 
 impl<'a> Iterator for ContentReferenceIter<'a> {
     type Item = char;
 
     fn next(&mut self) -> Option<char> {
-        self.0.next()
+        if self.remaining_bytes == 0 {
+            return None;
+        }
+        let tr = self.chars.next()?;
+        self.remaining_bytes -= tr.len_utf8();
+        Some(tr)
     }
 }
 
diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index a7aebd5..84004bb 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -32,13 +32,23 @@ impl<'a> InputIter for BlockSpan<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.iter_elements().position(predicate)
+        self.iter_indices()
+            .find(|&(_, c)| predicate(c))
+            .map(|(idx, _)| idx)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Option<usize> {
-        if self.length >= count {
-            Some(count)
+        // The count is in characters, but the index is in bytes
+        let mut characters = 0;
+        for (idx, _) in self.iter_indices() {
+            if characters == count {
+                return Some(idx);
+            }
+            characters += 1;
+        }
+        if characters == count {
+            Some(self.length)
         } else {
             None
         }
@@ -194,52 +204,23 @@ impl<'a, 'b> FindSubstring<&'b str> for BlockSpan<'a> {
             return None;
         }
 
-        let substr_bytes = substr.as_bytes();
-        let mut buffer = Vec::with_capacity(substr.len());
-        let mut char_buffer = [0, 0, 0, 0];
-        buffer.resize_with(substr.len(), || 0);
-
-        let mut self_iter = self.iter_indices();
-        let mut self_idx = 0;
-        let mut buffer_start = 0;
-
-        while self_idx < substr.len() {
-            let content = self_iter.next().unwrap();
-            let char_size = content.1.encode_utf8(&mut char_buffer).len();
-            for i in 0..char_size {
-                buffer[self_idx + i] = char_buffer[i];
-            }
-            self_idx = content.0 + char_size;
-        }
-
-        if buffer == substr.as_bytes() {
+        if substr.len() == 0 {
             return Some(0);
         }
 
-        for (i, c) in self_iter {
-            // debug!(
-            //     "Inspecting {:?} for match with {:?} {:?}",
-            //     c,
-            //     substr.as_bytes(),
-            //     buffer
-            // );
-            // // Update the buffer
-            let char_size = c.encode_utf8(&mut char_buffer).len();
-            for j in 0..char_size {
-                buffer[(buffer_start + j) % substr.len()] = char_buffer[j];
-            }
-            buffer_start = (buffer_start + char_size) % substr.len();
-            // attempt to match the current buffer against the substring
-            let mut all_match = true;
-            for j in 0..substr.len() {
-                if buffer[(buffer_start + j) % substr.len()] != substr_bytes[j] {
-                    all_match = false;
-                    break;
-                }
+        // The last `substr.len()` bytes we've seen
+        let mut window = std::collections::VecDeque::with_capacity(substr.len() + 4);
+        let mut char_buffer = [0, 0, 0, 0];
+        for (i, c) in self.iter_indices() {
+            let encoded = c.encode_utf8(&mut char_buffer);
+            window.extend(encoded.bytes());
+            while window.len() > substr.len() {
+                window.pop_front();
             }
-            if all_match {
-                debug!("Match found at {:?}", i - substr.len());
-                return Some(i - substr.len() + 1);
+            if window.len() == substr.len() && window.iter().eq(substr.as_bytes()) {
+                let match_start = i + encoded.len() - substr.len();
+                debug!("Match found at {:?}", match_start);
+                return Some(match_start);
             }
         }
 
-- 
2.43.0


From 8e2ae8a00432b219ea000abc068d24950b0a5070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 14/44] fix: allow spans to start on a segment boundary

When the offset of a span was exactly the length of the segments before it,
iterating over its segments sliced an empty tail off of the previous
segment and panicked.
---
 src/evaluated/block_span.rs        | 2 +-
 src/evaluated/content_reference.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index 0af1c11..6814b2e 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -282,7 +282,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
 
     fn next(&mut self) -> Option<crate::source_location::LocatedStr<'a>> {
         let mut tr = self.next_span()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.next_span()?;
         }
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 7bd1f19..73c1cd2 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -209,7 +209,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
         }
 
         let mut tr = self.internal.next()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.internal.next()?;
         }
-- 
2.43.0


From 680a7dbbde3a88fcd93229007537e55b414c98a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:28 +0000
Subject: [PATCH 15/44] fix: advance over whole characters in the line parsers

Several places assumed that the character at an index is one byte long, and
a continued line consisting of blanks or ending in a backslash followed by
blanks was not stripped down to its content.
---
 src/parsers/mod.rs         | 22 ++++++++++++++--------
 src/parsers/targets/mod.rs |  6 +++---
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index dd2558c..0c09729 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -401,6 +401,7 @@ where
     let mut last_nonslash_idx = -1;
     let mut next_push_start = 0;
     let mut stopchar_index = i.len() + 1;
+    let mut stopchar_len = 1;
     let mut stopchar_seen = false;
     for (idx, ch) in i.iter_indices() {
         if stop(ch) {
@@ -408,7 +409,7 @@ where
             debug!("Found stopchar at index {:?}", idx);
             // We found a stopchar. Push the previous span and figure out if it
             // actually matches
-            stop_character = Some(i.slice(idx..idx + 1));
+            stop_character = Some(i.slice(idx..idx + ch.len_utf8()));
 
             // slash count examples:
             //  0 1 2 3
@@ -431,11 +432,12 @@ where
                 // found the stopchar, and then break out
                 Arc::make_mut(&mut tr).push_all_contents(i.slice(next_push_start..end_idx));
                 stopchar_index = idx;
+                stopchar_len = ch.len_utf8();
                 break;
             }
         }
         if ch != '\\' {
-            last_nonslash_idx = idx as isize;
+            last_nonslash_idx = (idx + ch.len_utf8() - 1) as isize;
         }
     }
 
@@ -461,7 +463,10 @@ where
     if stopchar_index < i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
-        (tr, Some((stop_character, i.slice(stopchar_index + 1..))))
+        (
+            tr,
+            Some((stop_character, i.slice(stopchar_index + stopchar_len..))),
+        )
     } else if stopchar_index == i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
@@ -527,15 +532,16 @@ pub(crate) fn makefile_line(
                         s.slice(0..0)
                     } else {
                         // In GNU mode we strip off all the whitespace and the backslash
-                        let mut last_non_whitespace = 0;
-                        for (i, c) in s.char_indices() {
-                            if c == ' ' || c == '\t' || c == '\\' {
+                        let without_backslash = s.slice(..s.len() - 1);
+                        let mut end = 0;
+                        for (i, c) in without_backslash.char_indices() {
+                            if c == ' ' || c == '\t' {
                                 continue;
                             }
-                            last_non_whitespace = i;
+                            end = i + c.len_utf8();
                         }
 
-                        s.slice(..last_non_whitespace + 1)
+                        s.slice(..end)
                     }
                 }
             }
diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index f9e72e6..708d0c1 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -444,7 +444,7 @@ fn next_mword<'a>(
 
     while let Some((idx, chr)) = char_iter.next() {
         debug!("inspect {:?} at {:?}", chr, idx);
-        stop_index = idx + 1;
+        stop_index = idx + chr.len_utf8();
 
         if chr == ' ' || chr == '\t' || chr == '=' {
             end_reason = MWordEnd::Static;
@@ -464,7 +464,7 @@ fn next_mword<'a>(
         if chr == '$' {
             // This is probably a variable reference of some sort
             if let Some((idx, chr)) = char_iter.next() {
-                stop_index = idx + 1;
+                stop_index = idx + chr.len_utf8();
                 if chr == '$' {
                     // Consume the character
                     // This is just a double '$', does not end the word
@@ -486,7 +486,7 @@ fn next_mword<'a>(
 
                 let mut count = 1;
                 while let Some((idx, chr2)) = char_iter.next() {
-                    stop_index = idx + 1;
+                    stop_index = idx + chr2.len_utf8();
                     if chr2 == chr {
                         count += 1;
                     } else if chr2 == brace_end {
-- 
2.43.0


From 81c86e97c0964e1d3dbe800307c376264a00c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:29 +0000
Subject: [PATCH 16/44] fix: check drive specifications against the right
 characters

The letter before the colon and the character before that were swapped, so
"x c:/foo" was split at the drive letter. The last two characters were also
assumed to be one byte each.
---
 src/parsers/targets/mod.rs | 39 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 708d0c1..239e585 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -555,7 +555,7 @@ enum DrivespecSearchResult<'a> {
 ///  2. The character before that is (a) whitespace, or an open paren, or (b) the beginning of the line
 ///  3. The character after the colon is `\` or `/`.
 fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'a> {
-    use nom::{InputIter, Slice};
+    use nom::InputIter;
 
     let mut content = Block::empty();
     loop {
@@ -580,38 +580,19 @@ fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'
                         post_colon: post,
                     };
                 }
-                // Checking condition (1) and (2) requires slicing
-                if pre.len() == 0 {
-                    // Condition 2 fails automatically since there was no prior content
+                // Checking condition (1) and (2) requires the last two characters
+                let (before_letter, letter) = pre
+                    .span()
+                    .iter_elements()
+                    .fold((None, None), |(_, last), ch| (last, Some(ch)));
+                let condition_1 = letter.map_or(false, |ch| ch.is_alphabetic());
+                let condition_2 = before_letter.map_or(true, |ch| ch.is_whitespace() || ch == '(');
+                if !condition_1 || !condition_2 {
+                    // Condition 1 or 2 failed, not a drive spec
                     return DrivespecSearchResult::FoundColon {
                         pre_colon: content,
                         post_colon: post,
                     };
-                } else if pre.len() == 1 {
-                    // Condition 2b holds, check condition 1
-                    let ch = pre.span().iter_elements().next().unwrap();
-                    if !ch.is_alphabetic() {
-                        return DrivespecSearchResult::FoundColon {
-                            pre_colon: content,
-                            post_colon: post,
-                        };
-                    }
-                } else {
-                    // There were at least 2 prior characters, grab them
-                    let pre_slice = pre.span().slice(pre.len() - 2..);
-                    assert!(pre_slice.len() == 2);
-                    let (ch1, ch2) = {
-                        let mut iter = pre_slice.iter_elements();
-                        (iter.next().unwrap(), iter.next().unwrap())
-                    };
-                    // Check condition 1 and 2
-                    if !ch1.is_alphabetic() || !(ch2.is_whitespace() || ch2 == '(') {
-                        // Condition 1 or 2 failed, not a drive spec
-                        return DrivespecSearchResult::FoundColon {
-                            pre_colon: content,
-                            post_colon: post,
-                        };
-                    }
                 }
 
                 // This colon passed all checks and is thus a drivespecc. Push
-- 
2.43.0


From f30dd387cccc4f4d73fa560d5eafb100ed8d4934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:30 +0000
Subject: [PATCH 17/44] fix: report parse errors instead of panicking

process_block has a proper error type, but turned every parse error into an
unimplemented!() panic.
---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0e26f76..1279a6c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -580,9 +580,13 @@ impl Engine {
         while i.len() > 0 {
             let (new_i, _) = match parser_state.parse_line(i, names, self) {
                 Ok(v) => v,
-                Err(NErr::Failure(_)) => unimplemented!("Unrecoverable line parsing failure"),
                 Err(NErr::Incomplete(_)) => unimplemented!("incomplete line"),
-                Err(NErr::Error(_)) => unimplemented!("Recoverable line parsing failure"),
+                Err(NErr::Failure(e)) | Err(NErr::Error(e)) => {
+                    return Err(MakefileError::ParseError(match e.into_error_kind() {
+                        nom::ErrorKind::Custom(kind) => kind,
+                        other => nom::error_to_u32(&other).into(),
+                    }));
+                }
             };
 
             i = new_i;
-- 
2.43.0


From f75cc150890fe325bfe8e765c5bb1d33daa92280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:17 +0000
Subject: [PATCH 18/44] fix: detect the end of the line while parsing targets

next_mword never reported the end of the line, so lines without a separator
were silently accepted, and a target list containing a word that expands to
nothing made the whole rule disappear.
---
 src/parsers/targets/mod.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 239e585..f095359 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -204,11 +204,6 @@ pub(crate) fn parse_line<'a>(
             "After semicolon search, content is {:?}",
             new_content.into_string()
         );
-        if new_content.len() == 0 {
-            // Make seems to implicitly consume the whole line in this situation
-            return Ok((rest, Action::NoAction));
-        }
-
         match find_non_drivespec_colon(new_content.span()) {
             DrivespecSearchResult::FoundColon {
                 pre_colon: pre,
@@ -235,6 +230,13 @@ pub(crate) fn parse_line<'a>(
             }
         }
 
+        // Push synthetic spaces between spaces
+        debug!("Adding {:?} to expanded content", new_content.into_string());
+        if pre_colon_buffer.len() > 0 {
+            Arc::make_mut(&mut pre_colon_buffer).push(ContentReference::space());
+        }
+        Arc::make_mut(&mut pre_colon_buffer).push_all_contents(new_content.span());
+
         let mword = next_mword(line_next).map_err(|e| lift_collapsed_span_error(e, line_start))?;
         line_next = mword.0;
         mw = (mword.1).0;
@@ -243,13 +245,6 @@ pub(crate) fn parse_line<'a>(
         if mwt == MWordEnd::EOL {
             break;
         }
-
-        // Push synthetic spaces between spaces
-        debug!("Adding {:?} to expanded content", new_content.into_string());
-        if pre_colon_buffer.len() > 0 {
-            Arc::make_mut(&mut pre_colon_buffer).push(ContentReference::space());
-        }
-        Arc::make_mut(&mut pre_colon_buffer).push_all_contents(new_content.span());
     }
 
     debug!("Line split into {:?} and:", pre_colon_buffer.into_string(),);
@@ -418,6 +413,10 @@ fn next_mword<'a>(
     // Skip any leading whitespace
     let (i, _) = makefile_whitespace(i)?;
 
+    if i.len() == 0 {
+        return Ok((i, (i, MWordEnd::EOL)));
+    }
+
     // Early out on simple cases
     if let Ok((i, (cap, end_reason))) = pe_fix!(
         i,
-- 
2.43.0


From 365590d9ff9d0388e2e1665bf2f52f0f37bf3993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:18 +0000
Subject: [PATCH 19/44] fix: reject recipe lines outside of rules

The check looked at the line after its leading whitespace, including the
command character, had been removed. Rules without targets have to stay
open now, since their recipe is ignored rather than rejected.
---
 src/parsers/mod.rs         |  2 +-
 src/parsers/targets/mod.rs | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 0c09729..81f060e 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -242,7 +242,7 @@ impl ParserState {
             self.handle_directive_action(names, engine, directive_action)
         });
 
-        if line.span().chars().next() == Some(engine.command_char) {
+        if line_start.chars().next() == Some(engine.command_char) {
             // A tab (command character) at this point is definitely an error.
             return fail_out(line_start, ParseErrorKind::RecipeExpected);
         }
diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index f095359..69a1fe8 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -153,8 +153,16 @@ pub(crate) fn parse_line<'a>(
             return Ok((rest, Action::NoAction));
         }
         MWordEnd::Colon | MWordEnd::DColon => {
-            // No targets for this rule, just return immediately
-            return Ok((rest, Action::NoAction));
+            // No targets for this rule. Open it anyway, so its recipe is skipped
+            return Ok((
+                rest,
+                Action::NewRule {
+                    targets: Vec::new(),
+                    deps: Vec::new(),
+                    double_colon: mwt == MWordEnd::DColon,
+                    initial_command: None,
+                },
+            ));
         }
         _ => {}
     }
-- 
2.43.0


From d93f54e9f35e169b60898831b1e1693733467f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 20/44] fix: close the open rule before expanding the next line

A rule defined by an $(eval ...) on the line following another rule was
recorded first, so the earlier rule overwrote or reordered the later one.
---
 src/parsers/mod.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 81f060e..6beb376 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -226,19 +226,19 @@ impl ParserState {
             return Ok((i, ()));
         }
 
+        // Everything below ends the current rule. Close it before anything on
+        // this line is expanded, since that may define rules of its own.
+        self.close_rule(names, engine);
+
         run_line_parser!(
             variable::parse_line(line.span(), names, engine),
             |variable_action| {
                 debug!("Matched variable action {:?}", variable_action);
-                // Successful variable assignments close the current rule
-                self.close_rule(names, engine);
-
                 self.handle_global_variable_action(engine, variable_action)
             }
         );
 
         run_line_parser!(directives::parse_line(line.span()), |directive_action| {
-            self.close_rule(names, engine);
             self.handle_directive_action(names, engine, directive_action)
         });
 
@@ -249,11 +249,7 @@ impl ParserState {
 
         run_line_parser!(
             targets::parse_line(line.span(), names, engine),
-            |target_action| {
-                self.close_rule(names, engine);
-
-                self.handle_target_action(engine, target_action)
-            }
+            |target_action| self.handle_target_action(engine, target_action)
         );
 
         Ok((i, ()))
-- 
2.43.0


From 53c7bb472099411f180460610e1f8e1ea90e5386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:01 +0000
Subject: [PATCH 21/44] fix: take the body of a define literally

Comments were removed from the body together with their line break, which
joined the lines around them, and a "#" anywhere later in the file swallowed
all lines before it.
---
 src/parsers/mod.rs          | 13 ++++++++-----
 src/parsers/variable/mod.rs | 10 ++++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 6beb376..4ad6eec 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -157,11 +157,14 @@ impl ParserState {
         // TODO: validate that this is actually always an OK way to handle this,
         // since it diverges slightly from the GNU make behavior (which has
         // bespoke comment processing sprinkled through every other case)
-        run_parser!(comment::parse_comment_following_whitespace(i), |_| {
-            // Comment lines don't require any particular action
-            info!("Skipping over comment line");
-            Ok(())
-        });
+        // The body of a define is taken literally, so it doesn't have comments.
+        if self.current_define.is_none() {
+            run_parser!(comment::parse_comment_following_whitespace(i), |_| {
+                // Comment lines don't require any particular action
+                info!("Skipping over comment line");
+                Ok(())
+            });
+        }
 
         if self.currently_processing_rule() {
             // We only check for command lines when we can reasonably expect
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index a90b358..cfb3eab 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -413,9 +413,7 @@ pub(crate) fn parse_define_line<'a>(
         i,
         ParseErrorKind,
         alt_complete!(
-            take_until!("#") | // Comments
-                recognize!(terminated!(take_until!("\n"), tag!("\n"))) | // UNIX line endings
-                recognize!(terminated!(take_until!("\r\n"), tag!("\r\n"))) | // Windows line endings
+            recognize!(terminated!(take_until!("\n"), tag!("\n"))) | // UNIX and Windows line endings
                 nom::rest // EOF
         )
     )?;
@@ -437,7 +435,11 @@ pub(crate) fn parse_define_line<'a>(
     )?;
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
 
-    if action == DefineLineAction::DecreaseNesting && i.len() != 0 {
+    // The line ending the define may be followed by a comment
+    if action == DefineLineAction::DecreaseNesting
+        && i.len() != 0
+        && i.chars().next() != Some('#')
+    {
         return super::fail_out(i, ParseErrorKind::ExtraTokensAfter("endef"));
     }
 
-- 
2.43.0


From b2c4ffa82857a81c25880dc4b76cc2501b05a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:03 +0000
Subject: [PATCH 22/44] fix: require keywords to be whole words

Names that merely start with a keyword (loader, defined_in, else_flag,
includes) are ordinary names.
---
 src/parsers/conditional/mod.rs | 13 +++++++++++--
 src/parsers/directives/mod.rs  | 17 +++++++++--------
 src/parsers/mod.rs             | 11 +++++++++++
 src/parsers/variable/mod.rs    | 22 +++++++++++-----------
 4 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 75b4e48..232fafc 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -2,7 +2,7 @@
 
 // #SPC-P-Conditional
 
-use super::makefile_whitespace;
+use super::{keyword_end, makefile_whitespace};
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
@@ -158,7 +158,7 @@ fn parse_line_internal<'a>(
                         tag_no_case!("endif") => { |_| ConditionalType::EndIf }
                     )
                 ),
-                makefile_whitespace
+                preceded!(conditional_keyword_end, makefile_whitespace)
             )
         )
     )?;
@@ -210,6 +210,15 @@ fn parse_line_internal<'a>(
     }
 }
 
+/// The end of a conditional keyword. In addition to whitespace, the operands
+/// of an `ifeq` may follow directly.
+fn conditional_keyword_end<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
+    match i.chars().next() {
+        Some('(') | Some('"') | Some('\'') => Ok((i, ())),
+        _ => keyword_end(i),
+    }
+}
+
 /// #SPC-P-Conditional.ifeq
 fn parse_ifeq<'a>(
     line: BlockSpan<'a>,
diff --git a/src/parsers/directives/mod.rs b/src/parsers/directives/mod.rs
index 81e893a..0e4e7c7 100644
--- a/src/parsers/directives/mod.rs
+++ b/src/parsers/directives/mod.rs
@@ -2,6 +2,7 @@
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
+use crate::parsers::keyword_end;
 use crate::{Engine, NameCache, ParseErrorKind};
 use nom::IResult;
 
@@ -97,14 +98,14 @@ pub(crate) fn parse_line<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, Action,
     pe_fix!(
         i,
         alt!(
-            preceded!(pe_fix!(tag_no_case!("export")), parse_ast) => { Action::Export }     |
-            preceded!(pe_fix!(tag_no_case!("unexport")), parse_ast) => { Action::Unexport } |
-            preceded!(pe_fix!(tag_no_case!("vpath")), parse_ast) => { Action::VPath }       |
-            preceded!(pe_fix!(tag_no_case!("include")), parse_ast) => { Action::Include }   |
-            preceded!(pe_fix!(tag_no_case!("sinclude")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("-include")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("load")), parse_ast) => { Action::Load }         |
-            preceded!(pe_fix!(tag_no_case!("-load")), parse_ast) => { Action::SoftLoad }
+            preceded!(terminated!(pe_fix!(tag_no_case!("export")), keyword_end), parse_ast) => { Action::Export }     |
+            preceded!(terminated!(pe_fix!(tag_no_case!("unexport")), keyword_end), parse_ast) => { Action::Unexport } |
+            preceded!(terminated!(pe_fix!(tag_no_case!("vpath")), keyword_end), parse_ast) => { Action::VPath }       |
+            preceded!(terminated!(pe_fix!(tag_no_case!("include")), keyword_end), parse_ast) => { Action::Include }   |
+            preceded!(terminated!(pe_fix!(tag_no_case!("sinclude")), keyword_end), parse_ast) => { Action::SoftInclude }|
+            preceded!(terminated!(pe_fix!(tag_no_case!("-include")), keyword_end), parse_ast) => { Action::SoftInclude }|
+            preceded!(terminated!(pe_fix!(tag_no_case!("load")), keyword_end), parse_ast) => { Action::Load }         |
+            preceded!(terminated!(pe_fix!(tag_no_case!("-load")), keyword_end), parse_ast) => { Action::SoftLoad }
         )
     )
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 4ad6eec..4821004 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -622,6 +622,17 @@ pub(crate) fn makefile_line(
     Ok((i, Block::new(Default::default(), lines)))
 }
 
+/// Matches the end of a keyword, without consuming anything. Keywords end at
+/// whitespace or the end of the line, `includes` is not an `include`.
+fn keyword_end<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
+    match i.chars().next() {
+        Some(c) if !c.is_whitespace() => {
+            error_out(i, ParseErrorKind::InternalFailure("not the end of a keyword"))
+        }
+        _ => Ok((i, ())),
+    }
+}
+
 /// Create a new Nom `IResult` recoverable error with our custom error kind
 pub(crate) fn error_out<'a, T>(
     i: BlockSpan<'a>,
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index cfb3eab..ce95d24 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -1,7 +1,7 @@
 //! Parser for variable definitions
 
 // #SPC-P-Variable
-use super::{error_out, makefile_whitespace};
+use super::{error_out, keyword_end, makefile_whitespace};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
@@ -214,11 +214,11 @@ pub(crate) fn parse_line<'a>(
         let (new_i, modifier) = match terminated!(
             i,
             alt!(
-                pe_complete!(pe_fix!(tag_no_case!("define"))) => { |_| Modifier::Define } |
-                pe_complete!(pe_fix!(tag_no_case!("export"))) => { |_| Modifier::Export }  |
-                pe_complete!(pe_fix!(tag_no_case!("override"))) => { |_| Modifier::Override } |
-                pe_complete!(pe_fix!(tag_no_case!("private"))) => { |_| Modifier::Private } |
-                pe_complete!(pe_fix!(tag_no_case!("undefine"))) => { |_| Modifier::Undefine }
+                pe_complete!(terminated!(pe_fix!(tag_no_case!("define")), keyword_end)) => { |_| Modifier::Define } |
+                pe_complete!(terminated!(pe_fix!(tag_no_case!("export")), keyword_end)) => { |_| Modifier::Export }  |
+                pe_complete!(terminated!(pe_fix!(tag_no_case!("override")), keyword_end)) => { |_| Modifier::Override } |
+                pe_complete!(terminated!(pe_fix!(tag_no_case!("private")), keyword_end)) => { |_| Modifier::Private } |
+                pe_complete!(terminated!(pe_fix!(tag_no_case!("undefine")), keyword_end)) => { |_| Modifier::Undefine }
             ),
             makefile_whitespace
         ) {
@@ -426,11 +426,11 @@ pub(crate) fn parse_define_line<'a>(
         i,
         preceded!(
             makefile_whitespace,
-            pe_fix!(alt!(
-                tag!("define") => { |_|  DefineLineAction::IncreaseNesting} |
-                tag!("endef") => { |_|  DefineLineAction::DecreaseNesting}  |
-                nom::rest => { |_|  DefineLineAction::Append}
-            ))
+            alt!(
+                terminated!(pe_fix!(tag!("define")), keyword_end) => { |_|  DefineLineAction::IncreaseNesting} |
+                terminated!(pe_fix!(tag!("endef")), keyword_end) => { |_|  DefineLineAction::DecreaseNesting}  |
+                pe_fix!(nom::rest) => { |_|  DefineLineAction::Append}
+            )
         )
     )?;
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
-- 
2.43.0


From bea3563507af9384e19f6db6c8ebc85618f749ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:57 +0000
Subject: [PATCH 23/44] fix: keep continuation lines without a tab in the
 recipe

---
 src/parsers/recipe_line.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/recipe_line.rs b/src/parsers/recipe_line.rs
index 3c2c94a..ba9eaa6 100644
--- a/src/parsers/recipe_line.rs
+++ b/src/parsers/recipe_line.rs
@@ -42,7 +42,12 @@ pub(super) fn recipe_line<'a>(
 
     while ends_with_backslash(line.span()) & 1 == 1 {
         Arc::make_mut(&mut line).push(ContentReference::newline()); // Add back the \n we striped
-        let next_line_result = grab_command_line!(i);
+        // The command character is optional on continuation lines
+        let next_line_result = if i.len() == 0 || i.chars().next() == Some(command_char) {
+            grab_command_line!(i)
+        } else {
+            makefile_grab_line(i)
+        };
         match next_line_result {
             Ok((new_i, (next_line, end_reason))) => {
                 Arc::make_mut(&mut line).push(next_line.to_content_reference());
-- 
2.43.0


From 709d474c9ad5ac70f4d4440b522887e621d082df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 24/44] fix: report the specific kind of parse errors

Tokens after an `else` were reported as an internal NomError.
---
 src/lib.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1279a6c..69b0d77 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -582,9 +582,22 @@ impl Engine {
                 Ok(v) => v,
                 Err(NErr::Incomplete(_)) => unimplemented!("incomplete line"),
                 Err(NErr::Failure(e)) | Err(NErr::Error(e)) => {
-                    return Err(MakefileError::ParseError(match e.into_error_kind() {
-                        nom::ErrorKind::Custom(kind) => kind,
-                        other => nom::error_to_u32(&other).into(),
+                    // The outermost error says what we were looking for, the
+                    // inner ones may be internal to the parser combinators
+                    let kind = nom::error_to_list(&e)
+                        .into_iter()
+                        .filter_map(|(_, kind)| match kind {
+                            nom::ErrorKind::Custom(ParseErrorKind::NomError(_)) => None,
+                            nom::ErrorKind::Custom(kind) => Some(kind),
+                            _ => None,
+                        })
+                        .next();
+                    return Err(MakefileError::ParseError(match kind {
+                        Some(kind) => kind,
+                        None => match e.into_error_kind() {
+                            nom::ErrorKind::Custom(kind) => kind,
+                            other => nom::error_to_u32(&other).into(),
+                        },
                     }));
                 }
             };
-- 
2.43.0


From 86bc6752ec7ed449c12600a55df469e758ffc50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:56 +0000
Subject: [PATCH 25/44] fix: do not take assignments in inline recipes for
 target variables

---
 src/parsers/targets/mod.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 69a1fe8..dc66163 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -307,18 +307,25 @@ pub(crate) fn parse_line<'a>(
         }
     };
 
-    // Try to match against a variable assignment operation
-    match parse_variable_line(post_targets_slice, names, engine) {
-        Ok((_, action)) => {
-            return Ok((
-                rest,
-                Action::TargetVariable {
-                    targets,
-                    variable_action: action,
-                },
-            ));
+    // Try to match against a variable assignment operation. The operator has to
+    // be in front of the recipe, everything after that belongs to the shell.
+    if post_targets_slice
+        .slice(..pre_semi_len)
+        .chars()
+        .any(|c| c == '=')
+    {
+        match parse_variable_line(post_targets_slice, names, engine) {
+            Ok((_, action)) => {
+                return Ok((
+                    rest,
+                    Action::TargetVariable {
+                        targets,
+                        variable_action: action,
+                    },
+                ));
+            }
+            Err(_) => {}
         }
-        Err(_) => {}
     }
 
     // Expand the pre-semicolon slice
-- 
2.43.0


From 66a4a49005fd3432bc1d810225f3a296afd9b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:12 +0000
Subject: [PATCH 26/44] verif: accessors for the verification harness (cfg
 hastur_verif)

Off by default; enabled with RUSTFLAGS="--cfg hastur_verif".
---
 src/eval/mod.rs |  8 ++++++++
 src/lib.rs      | 16 ++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/eval/mod.rs b/src/eval/mod.rs
index cab38e0..7a337c7 100644
--- a/src/eval/mod.rs
+++ b/src/eval/mod.rs
@@ -57,6 +57,14 @@ impl VariableParameters {
     }
 }
 
+#[cfg(hastur_verif)]
+impl VariableParameters {
+    /// Verification hook: build parameters without going through the parser
+    pub fn verif_new(unexpanded_value: AstNode, flavor: Flavor, origin: Origin) -> Self {
+        Self::new(unexpanded_value, flavor, origin)
+    }
+}
+
 /// Represents a view into a make variable.
 /// These provide some convenience functions for expansion, but don't keep them
 /// around since they tie up exclusive access to the database.
diff --git a/src/lib.rs b/src/lib.rs
index 69b0d77..3261a5a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -143,6 +143,14 @@ pub struct Command {
     unexpanded_command: AstNode,
 }
 
+#[cfg(hastur_verif)]
+impl Command {
+    /// Verification hook: the command as it was read, unexpanded
+    pub fn verif_unexpanded(&self) -> &AstNode {
+        &self.unexpanded_command
+    }
+}
+
 /// Represents what type of rule this is (standard, double colon, static pattern, etc.)
 #[derive(Copy, Clone, Debug, PartialEq, Eq)]
 pub enum RuleType {
@@ -204,6 +212,14 @@ impl Rule {
     }
 }
 
+#[cfg(hastur_verif)]
+impl Rule {
+    /// Verification hook: what type of rule this is
+    pub fn verif_rule_type(&self) -> RuleType {
+        self.rule_type
+    }
+}
+
 /// Type representing an opaque variable name reference.
 /// It is a logical bug to share these between database instances.
 #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, Ord, PartialOrd)]
-- 
2.43.0


From 2a7031424e60464d97ea0457cf1ebed8398011fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:25 +0000
Subject: [PATCH 27/44] fix: replace whole words when only the pattern has a %

---
 src/ast/text_functions.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 321e32f..34fb317 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -22,16 +22,16 @@ pub(super) fn do_subref(
                     sensitivity,
                     &pre_key.into_string(),
                     &post_key.into_string(),
-                    pre_replacement.span(),
+                    Some(pre_replacement.span()),
                     post_replacement,
                 ),
-                // Only key had a %
+                // Only key had a %, so the whole word is replaced
                 (replacement, None) => do_replacement(
                     variable_value.span(),
                     sensitivity,
                     &pre_key.into_string(),
                     &post_key.into_string(),
-                    BlockSpan::empty(),
+                    None,
                     replacement.span(),
                 ),
             }
@@ -41,19 +41,21 @@ pub(super) fn do_subref(
             sensitivity,
             "",
             &key.into_string(),
-            BlockSpan::empty(),
+            Some(BlockSpan::empty()),
             replacement.span(),
         ),
     }
 }
 
-/// Internal function that can actually do replacement
+/// Internal function that can actually do replacement. The stem of matching
+/// words goes between the two halves of the replacement. Without the first half,
+/// the replacement doesn't include the stem.
 fn do_replacement<'a>(
     mut tokens: BlockSpan,
     sensitivity: Set<VariableName>,
     pre_key: &str,
     post_key: &str,
-    pre_replacement: BlockSpan,
+    pre_replacement: Option<BlockSpan>,
     post_replacement: BlockSpan,
 ) -> Arc<Block> {
     use nom::Slice;
@@ -91,8 +93,10 @@ fn do_replacement<'a>(
         let captured = token.slice(pre_key.len()..token.len() - post_key.len());
 
         // Push the replacement
-        Arc::make_mut(&mut output).push_all_contents(pre_replacement.clone());
-        Arc::make_mut(&mut output).push_all_contents(captured.clone());
+        if let Some(pre_replacement) = pre_replacement {
+            Arc::make_mut(&mut output).push_all_contents(pre_replacement.clone());
+            Arc::make_mut(&mut output).push_all_contents(captured.clone());
+        }
         Arc::make_mut(&mut output).push_all_contents(post_replacement.clone());
     }
     // Since we just pushed a bunch of garbage we should be nice and simplify
-- 
2.43.0


From e81a2317ffcf4b9676f8b9107903c9e61e3ddfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:40 +0000
Subject: [PATCH 28/44] fix: do not substitute in values without any words

---
 src/ast/text_functions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 34fb317..d8b1d61 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -66,6 +66,11 @@ fn do_replacement<'a>(
         let (new_tokens, token) = makefile_token(tokens).expect("tokens should never fail");
         tokens = new_tokens;
 
+        if token.len() == 0 {
+            // There was only whitespace, which isn't a word
+            continue;
+        }
+
         if !first {
             // We just pushed something else, so push a space
             Arc::make_mut(&mut output).push(crate::evaluated::ContentReference::space());
-- 
2.43.0


From 8cde25419fd0a9a13eb1f24f8476192a5a578253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:24 +0000
Subject: [PATCH 29/44] fix: count the offset into the last segment when
 measuring spans

---
 src/evaluated/nom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index 84004bb..9dc050e 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -246,7 +246,7 @@ impl<'a> Offset for BlockSpan<'a> {
                 tr += walk[0].length;
                 walk = &walk[1..];
             }
-            tr
+            tr + second.offset
         }
     }
 }
-- 
2.43.0


From f8a0e62cb9680e2f314095d305db2fdb8c885423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 30/44] Add accessors for expansion history, for verification

---
 src/evaluated/content_reference.rs | 9 +++++++++
 src/evaluated/nodes.rs             | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 73c1cd2..dd66d49 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -152,6 +152,15 @@ impl ContentReference {
     }
 }
 
+#[cfg(hastur_verif)]
+impl ContentReference {
+    /// Verification hook: the node behind this reference, and which part of it
+    /// (offset and length in bytes) is referenced
+    pub fn verif_node(&self) -> (&EvaluatedNode, usize, usize) {
+        (&self.node, self.offset, self.length)
+    }
+}
+
 /// An iterator over the characters in a content reference
 #[derive(Clone, Debug)]
 pub struct ContentReferenceIter<'a> {
diff --git a/src/evaluated/nodes.rs b/src/evaluated/nodes.rs
index 495b52d..4ff4497 100644
--- a/src/evaluated/nodes.rs
+++ b/src/evaluated/nodes.rs
@@ -171,6 +171,14 @@ impl VariableReference {
     }
 }
 
+#[cfg(hastur_verif)]
+impl VariableReference {
+    /// Verification hook: what the variable expanded to
+    pub fn verif_value(&self) -> &Block {
+        &self.value
+    }
+}
+
 /// A reference to a variable that applies some substitution
 // #SPC-Variable-Eval.substitution_reference
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From fe0b3353cd7c70630e98789bbf0e96bb81ed1fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:01 +0000
Subject: [PATCH 31/44] fix: keep the sensitivity of words that expand to
 nothing

---
 src/evaluated/block_span.rs |  5 +++--
 src/evaluated/mod.rs        | 22 +++++++++++-----------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index 6814b2e..4fd8b17 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -102,8 +102,9 @@ impl<'a> BlockSpan<'a> {
 
     /// Create a new owned block from this slice
     pub fn to_new_block(&self) -> Arc<Block> {
+        let sensitivity = self.parent.sensitivity().map(|x| *x).collect();
         if self.length == 0 {
-            return super::EMPTY_BLOCK.clone();
+            return Block::new(sensitivity, Vec::new());
         }
 
         assert!(self.contents.len() > 0);
@@ -129,7 +130,7 @@ impl<'a> BlockSpan<'a> {
         to_push.length = remaining_length;
         nodes.push(to_push);
 
-        Block::new(self.parent.sensitivity().map(|x| *x).collect(), nodes)
+        Block::new(sensitivity, nodes)
     }
 
     /// Create a new owned block from this slice, and package it up into a nice `ContentReference`
diff --git a/src/evaluated/mod.rs b/src/evaluated/mod.rs
index abcfc5b..edbe52f 100644
--- a/src/evaluated/mod.rs
+++ b/src/evaluated/mod.rs
@@ -100,6 +100,17 @@ impl Block {
 
     /// Push all the contents from a span into this block
     pub fn push_all_contents(&mut self, span: BlockSpan) {
+        // If this span comes from another block, add the sensitivity of that block to this one.
+        // We could probably get away with being less sensitive (e.g. if the
+        // content that caused the other block to be sensitive to a particular
+        // variable isn't actually in the provided span), but for now err on the
+        // side of caution
+        if !std::ptr::eq(self, span.parent) {
+            for v in span.parent.sensitivity.iter() {
+                self.sensitivity = self.sensitivity.update(*v);
+            }
+        }
+
         if span.length == 0 {
             return;
         }
@@ -126,17 +137,6 @@ impl Block {
         assert!(to_push.length >= remaining_length);
         to_push.length = remaining_length;
         self.content.push(to_push);
-
-        // If this span comes from another block, add the sensitivity of that block to this one.
-        // We could probably get away with being less sensitive (e.g. if the
-        // content that caused the other block to be sensitive to a particular
-        // variable isn't actually in the provided span), but for now err on the
-        // side of caution
-        if !std::ptr::eq(self, span.parent) {
-            for v in span.parent.sensitivity.iter() {
-                self.sensitivity = self.sensitivity.update(*v);
-            }
-        }
     }
 
     /// Iterate over the contents of this block
-- 
2.43.0


From 8b079f4802f8b9124788a12b658b877f124b85cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:01 +0000
Subject: [PATCH 32/44] fix: enter nodes at the referenced offset instead of
 walking to it

---
 src/evaluated/block_span.rs        | 21 ++++-------
 src/evaluated/content_reference.rs | 28 +++++---------
 src/evaluated/nodes.rs             | 59 ++++++++++++++++++++----------
 3 files changed, 56 insertions(+), 52 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index 4fd8b17..8edecae 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -157,10 +157,10 @@ impl<'a> Iter<'a> {
     fn new(parent: &BlockSpan<'a>) -> Self {
         let mut cons_iter = parent.contents.iter();
         let char_iter: Box<BlockSpanCharIteratorInternal<'a>> = match cons_iter.next() {
-            Some(x) => Box::new(BlockSpanCharIteratorInternal::ContentReference(
+            Some(x) if parent.length > 0 => Box::new(BlockSpanCharIteratorInternal::ContentReference(
                 x.chars_from(parent.offset),
             )),
-            None => Box::new(BlockSpanCharIteratorInternal::NullIter("".chars())),
+            _ => Box::new(BlockSpanCharIteratorInternal::NullIter("".chars())),
         };
         Self {
             cons_iter,
@@ -236,16 +236,19 @@ impl<'a> std::iter::Iterator for IndexIter<'a> {
 pub struct SegmentsIter<'a> {
     references_iter: std::slice::Iter<'a, ContentReference>,
     segments_iter: Box<Option<super::content_reference::SegmentsIter<'a>>>,
-    offset: usize,
     length: usize,
 }
 
 impl<'a> SegmentsIter<'a> {
     fn new(parent: &BlockSpan<'a>) -> Self {
         let mut references_iter = parent.contents.iter();
-        let segments_iter = Box::new(references_iter.next().map(|x| x.segments()));
+        let segments_iter = Box::new(
+            references_iter
+                .next()
+                .filter(|_| parent.length > 0)
+                .map(|x| x.segments_from(parent.offset)),
+        );
         Self {
-            offset: parent.offset,
             length: parent.length,
             references_iter,
             segments_iter,
@@ -283,14 +286,6 @@ impl<'a> Iterator for SegmentsIter<'a> {
 
     fn next(&mut self) -> Option<crate::source_location::LocatedStr<'a>> {
         let mut tr = self.next_span()?;
-        while tr.len() <= self.offset {
-            self.offset -= tr.len();
-            tr = self.next_span()?;
-        }
-        if self.offset != 0 {
-            tr = tr.slice(self.offset, tr.len() - self.offset);
-        }
-        self.offset = 0;
         if self.length < tr.len() {
             tr = tr.slice(0, self.length);
         }
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index dd66d49..74570aa 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -78,16 +78,8 @@ impl ContentReference {
     /// Iterate over the characters in this content reference, starting at the
     /// given offset (in bytes)
     pub(super) fn chars_from(&self, offset: usize) -> ContentReferenceIter {
-        let mut chars = self.node.chars();
-        let mut to_skip = self.offset + offset;
-        while to_skip > 0 {
-            match chars.next() {
-                Some(c) => to_skip -= c.len_utf8(),
-                None => break,
-            }
-        }
         ContentReferenceIter {
-            chars,
+            chars: self.node.chars_from(self.offset + offset),
             remaining_bytes: self.length.saturating_sub(offset),
         }
     }
@@ -103,10 +95,15 @@ impl ContentReference {
 
     /// Iterate over the segments of this reference
     pub fn segments(&self) -> SegmentsIter {
+        self.segments_from(0)
+    }
+
+    /// Iterate over the segments of this reference, starting at the given
+    /// offset (in bytes)
+    pub(super) fn segments_from(&self, offset: usize) -> SegmentsIter {
         SegmentsIter {
-            internal: self.node.segments(),
-            length: self.length,
-            offset: self.offset,
+            internal: self.node.segments_from(self.offset + offset),
+            length: self.length.saturating_sub(offset),
         }
     }
 
@@ -205,7 +202,6 @@ impl<'a> Iterator for ContentReferenceIndexIter<'a> {
 #[derive(Clone, Debug)]
 pub struct SegmentsIter<'a> {
     internal: super::nodes::SegmentsIter<'a>,
-    offset: usize,
     length: usize,
 }
 
@@ -218,12 +214,6 @@ impl<'a> Iterator for SegmentsIter<'a> {
         }
 
         let mut tr = self.internal.next()?;
-        while tr.len() <= self.offset {
-            self.offset -= tr.len();
-            tr = self.internal.next()?;
-        }
-        tr = tr.slice(self.offset, tr.len() - self.offset);
-        self.offset = 0;
         if tr.len() > self.length {
             tr = tr.slice(0, self.length);
         }
diff --git a/src/evaluated/nodes.rs b/src/evaluated/nodes.rs
index 4ff4497..4500670 100644
--- a/src/evaluated/nodes.rs
+++ b/src/evaluated/nodes.rs
@@ -62,32 +62,51 @@ impl EvaluatedNode {
 
     /// Iterate over the characters in this nodes
     pub fn chars(&self) -> Chars {
-        match self {
-            EvaluatedNode::Constant(v) => Chars(CharsInternal::Direct(v.chars())),
-            EvaluatedNode::Concat(v) => Chars(CharsInternal::BlockSpan(v.span().chars())),
-            EvaluatedNode::VariableReference(val) => {
-                Chars(CharsInternal::BlockSpan(val.value.span().chars()))
-            }
-            EvaluatedNode::SubstitutionReference(val) => {
-                Chars(CharsInternal::BlockSpan(val.value.span().chars()))
+        self.chars_from(0)
+    }
+
+    /// Iterate over the characters in this node, starting at the given offset
+    /// (in bytes). Nested blocks are entered at that offset, instead of walking
+    /// through everything in front of it.
+    pub(super) fn chars_from(&self, offset: usize) -> Chars {
+        use nom::Slice;
+        let value = match self {
+            EvaluatedNode::Constant(v) => {
+                return Chars(CharsInternal::Direct(v[offset..].chars()));
             }
-            EvaluatedNode::Evaluated(v) => Chars(CharsInternal::BlockSpan(v.value.span().chars())),
-        }
+            EvaluatedNode::Concat(v) => v,
+            EvaluatedNode::VariableReference(v) => &v.value,
+            EvaluatedNode::SubstitutionReference(v) => &v.value,
+            EvaluatedNode::Evaluated(v) => &v.value,
+        };
+        Chars(CharsInternal::BlockSpan(value.span().slice(offset..).chars()))
     }
 
     /// Iterate over the segments in this node
     pub fn segments(&self) -> SegmentsIter {
-        SegmentsIter(match self {
-            EvaluatedNode::Constant(v) => SegmentsInternal::OneShot(v.as_str()),
-            EvaluatedNode::Concat(v) => SegmentsInternal::BlockSpan(v.span().segments()),
-            EvaluatedNode::VariableReference(v) => {
-                SegmentsInternal::BlockSpan(v.value.span().segments())
-            }
-            EvaluatedNode::SubstitutionReference(v) => {
-                SegmentsInternal::BlockSpan(v.value.span().segments())
+        self.segments_from(0)
+    }
+
+    /// Iterate over the segments in this node, starting at the given offset (in
+    /// bytes)
+    pub(super) fn segments_from(&self, offset: usize) -> SegmentsIter {
+        use nom::Slice;
+        let value = match self {
+            EvaluatedNode::Constant(v) => {
+                return SegmentsIter(if offset < v.len() {
+                    SegmentsInternal::OneShot(v.as_str().slice(offset, v.len() - offset))
+                } else {
+                    SegmentsInternal::Exhausted
+                });
             }
-            EvaluatedNode::Evaluated(v) => SegmentsInternal::BlockSpan(v.value.span().segments()),
-        })
+            EvaluatedNode::Concat(v) => v,
+            EvaluatedNode::VariableReference(v) => &v.value,
+            EvaluatedNode::SubstitutionReference(v) => &v.value,
+            EvaluatedNode::Evaluated(v) => &v.value,
+        };
+        SegmentsIter(SegmentsInternal::BlockSpan(
+            value.span().slice(offset..).segments(),
+        ))
     }
 }
 
-- 
2.43.0


From f1e1258f4df41bab57c4ffffa73d8071f33cbe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:54 +0000
Subject: [PATCH 33/44] fix: skip empty references at the start of a block's
 span

---
 src/evaluated/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evaluated/mod.rs b/src/evaluated/mod.rs
index edbe52f..d74c969 100644
--- a/src/evaluated/mod.rs
+++ b/src/evaluated/mod.rs
@@ -70,12 +70,16 @@ impl Block {
     /// Get this block as a parsable span
     pub fn span(&self) -> BlockSpan {
         let length = self.content.iter().map(|x| x.length).sum();
-        BlockSpan {
+        let mut tr = BlockSpan {
             parent: self,
             contents: &self.content,
             offset: 0,
             length: length,
-        }
+        };
+        // The first references may be empty
+        tr.revalidate_offset();
+
+        tr
     }
 
     /// Get a list of things that this tree is sensitive too
-- 
2.43.0


From c1bb2ede4fec8420d12cb62d81c530a86f820922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:08 +0000
Subject: [PATCH 34/44] fix: split a span without a match at its own end, not
 its block's

---
 src/evaluated/block_span.rs | 15 ---------------
 src/evaluated/nom/mod.rs    | 13 ++-----------
 2 files changed, 2 insertions(+), 26 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index 8edecae..76aff76 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -26,21 +26,6 @@ impl<'a> BlockSpan<'a> {
         }
     }
 
-    /// Create an empty block with the provided parent.
-    /// This requires us to also pass an empty array for "contents", so `Offset`
-    /// works correctly.
-    pub(crate) fn empty_with_parent(
-        parent: &'a Block,
-        contents: &'a [ContentReference],
-    ) -> BlockSpan<'a> {
-        BlockSpan {
-            parent,
-            contents: contents,
-            offset: 0,
-            length: 0,
-        }
-    }
-
     #[inline]
     pub(super) fn revalidate_offset(&mut self) {
         if self.length == 0 {
diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index 9dc050e..ed857f7 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -105,10 +105,7 @@ impl<'a> InputTakeAtPosition for BlockSpan<'a> {
                 let snd = self.slice(..i);
                 Ok((fst, snd))
             }
-            None => Ok((
-                BlockSpan::empty_with_parent(self.parent, &self.contents[self.contents.len()..]),
-                *self,
-            )),
+            None => Ok((self.slice(self.length..), *self)),
         }
     }
 
@@ -123,13 +120,7 @@ impl<'a> InputTakeAtPosition for BlockSpan<'a> {
                 if self.length == 0 {
                     Err(Err::Error(Context::Code(*self, e)))
                 } else {
-                    Ok((
-                        BlockSpan::empty_with_parent(
-                            self.parent,
-                            &self.contents[self.contents.len()..],
-                        ),
-                        *self,
-                    ))
+                    Ok((self.slice(self.length..), *self))
                 }
             }
         }
-- 
2.43.0


From 247320a408e13211b12812cec0a045c981401812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:07 +0000
Subject: [PATCH 35/44] Add a constructor for located strings, for verification

---
 src/source_location.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/source_location.rs b/src/source_location.rs
index 8f5dba2..b3e5bdf 100644
--- a/src/source_location.rs
+++ b/src/source_location.rs
@@ -282,6 +282,12 @@ impl Located<String> {
         LocatedString::new(Location::Synthetic.into(), contents.into())
     }
 
+    /// Create a new located string at a location, for verification
+    #[cfg(hastur_verif)]
+    pub fn verif_new(location: Location, contents: impl Into<String>) -> LocatedString {
+        LocatedString::new(location.into(), contents.into())
+    }
+
     /// Slice this string into another owned string. Both the start and length
     /// are in bytes.
     pub fn slice(&self, bytes: usize, length: usize) -> LocatedString {
-- 
2.43.0


From 776312349d0b7141808d94de31f21cc566529aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:38 +0000
Subject: [PATCH 36/44] fix: keep a quoted character at the end of the line in
 its word

---
 src/parsers/targets/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index dc66163..ecf4771 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -520,11 +520,12 @@ fn next_mword<'a>(
 
         if chr == '\\' {
             prev_char = chr;
-            if let Some((_, chr)) = char_iter.peek() {
-                let chr = *chr;
+            if let Some((idx, chr)) = char_iter.peek() {
+                let (idx, chr) = (*idx, *chr);
                 if chr == ':' || chr == ';' || chr == '=' || chr == '\\' {
                     // This is escaping something, skip forward
                     prev_char = chr;
+                    stop_index = idx + chr.len_utf8();
                     char_iter.next();
                 }
             }
-- 
2.43.0


From 1d713866234d81360b26492149f2930ef0262426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:01 +0000
Subject: [PATCH 37/44] fix: append to empty values without a space

---
 src/ast/mod.rs | 11 +++++++++++
 src/lib.rs     |  3 ++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 88f10cf..10b6c64 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -41,6 +41,17 @@ impl AstNode {
         &mut self.children
     }
 
+    /// Is there no text at all in this node, not even a reference?
+    pub(crate) fn is_empty(&self) -> bool {
+        match self.children() {
+            AstChildren::Empty => true,
+            AstChildren::Constant(text) => text.is_empty(),
+            AstChildren::PreEvaluated(block) => block.len() == 0,
+            AstChildren::Concat(children) => children.iter().all(|child| child.is_empty()),
+            _ => false,
+        }
+    }
+
     /// Evaluate this AST, in the context of the provided database. The provided
     /// database *is not* updated. To fully commit the changes of this
     /// evaluation, one must use `Engine::replace_database` with the returned
diff --git a/src/lib.rs b/src/lib.rs
index 3261a5a..4825579 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -354,7 +354,8 @@ impl Database {
         tr.variables = tr.variables.update_with(name, content, |mut old, new| {
             old.unexpanded_value = ast::collapsing_concat(
                 location,
-                if implicit_space {
+                // There is nothing to separate from if the old value is empty
+                if implicit_space && !old.unexpanded_value.is_empty() {
                     vec![
                         old.unexpanded_value,
                         ast::constant(LocatedString::new(Location::Synthetic.into(), " ".into())),
-- 
2.43.0


From 925f30c47d9a463d40ebc97603bed8b30f2cd46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:44 +0000
Subject: [PATCH 38/44] fix: the body of a define is taken as a whole

:= and += now expand it at once when the variable is a simple one, and
references may go on on the next line.
---
 src/lib.rs                  |   5 +-
 src/parsers/mod.rs          |  27 ++++---
 src/parsers/variable/mod.rs | 152 ++++++++++++++++++++++++------------
 3 files changed, 121 insertions(+), 63 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4825579..063a89e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -622,7 +622,10 @@ impl Engine {
             i = new_i;
         }
 
-        // The end of the input also ends the last rule
+        // The end of the input also ends the last rule and definition
+        parser_state
+            .finish_define(names, self)
+            .map_err(MakefileError::ParseError)?;
         parser_state.close_rule(names, self);
 
         Ok(())
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 4821004..726255e 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -53,17 +53,18 @@ struct ConditionalState {
     seen_else: bool,
 }
 
-#[derive(Copy, Clone, Debug, PartialEq)]
+#[derive(Clone, Debug, PartialEq)]
 pub(crate) struct DefineState {
-    /// The variable name we're currently defining
-    var: VariableName,
+    /// The variable name we're currently defining, and what to do to it once
+    /// the body is complete. `None` when the define has no effect, because it is
+    /// in an inactive branch or a `?=` of a variable that already has a value
+    target: Option<(VariableName, variable::Action)>,
 
-    // How deeply nested the defines are
+    /// How deeply nested the defines are
     nesting: u32,
 
-    // True when the body has no effect, because this is a `?=` define of a
-    // variable that already has a value
-    discard: bool,
+    /// The lines of the body we have seen so far
+    body: Arc<Block>,
 }
 
 /// Contains the information that may come out of a rule line. Note that this is
@@ -166,7 +167,12 @@ impl ParserState {
             });
         }
 
-        if self.currently_processing_rule() {
+        if self.current_define.is_some() {
+            // If we're currently parsing a line inside a define, handle that
+            run_parser!(variable::parse_define_line(i), |line| self
+                .handle_define_line(names, engine, line));
+            panic!("Parsing a define line should never fail");
+        } else if self.currently_processing_rule() {
             // We only check for command lines when we can reasonably expect
             // that we're currently processing a recipe
             run_parser!(recipe_line(i, engine.command_char), |line| {
@@ -177,11 +183,6 @@ impl ParserState {
                 }
                 Ok(())
             });
-        } else if self.current_define.is_some() {
-            // If we're currently parsing a line inside a define, handle that
-            run_parser!(variable::parse_define_line(i), |action| self
-                .handle_define_line(engine, action));
-            panic!("Parsing a define line should never fail");
         }
 
         // If it's not a recipe line, we can safely collapse all continuations
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index ce95d24..c74e982 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -5,11 +5,12 @@ use super::{error_out, keyword_end, makefile_whitespace};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
-use crate::evaluated::BlockSpan;
+use crate::evaluated::{Block, BlockSpan};
 use crate::parsers::ast::parse_ast;
 use crate::parsers::DefineState;
 use crate::{Engine, ParseErrorKind, VariableName};
 use nom::IResult;
+use std::sync::Arc;
 
 #[cfg(test)]
 mod test;
@@ -36,13 +37,13 @@ enum DefineLineAction {
 
 /// Structure of a define line
 #[derive(Clone, Debug, PartialEq)]
-pub(crate) struct DefineLine {
+pub(crate) struct DefineLine<'a> {
     /// The content of the line
-    content: ast::AstNode,
+    content: BlockSpan<'a>,
     /// What action to take with the content
     action: DefineLineAction,
-    /// The location at which this line starts
-    location: crate::source_location::Location,
+    /// True if there is something after an `endef` that doesn't belong there
+    extra_tokens: bool,
 }
 
 /// What action to apply to the variable
@@ -100,29 +101,65 @@ impl crate::parsers::ParserState {
         if action.modifiers.define {
             assert!(!self.current_define.is_some());
             self.current_define = Some(DefineState {
-                var: action.name,
+                target: if discard {
+                    None
+                } else {
+                    Some((action.name, action.action))
+                },
                 nesting: 1,
-                discard,
+                body: Block::empty(),
             });
+            return Ok(());
         }
 
-        if discard {
-            return Ok(());
+        if !discard {
+            apply_action(engine, action.name, action.action);
         }
 
-        match action.action {
-            Action::Define(parameters) => {
-                engine.database = engine.database.set_variable(action.name, parameters);
+        Ok(())
+    }
+
+    /// Give the variable of the current define its value, now that the body is complete
+    pub(crate) fn finish_define(
+        &mut self,
+        names: &mut crate::NameCache,
+        engine: &mut Engine,
+    ) -> Result<(), ParseErrorKind> {
+        let define = std::mem::replace(&mut self.current_define, None);
+        let (body, (name, action)) = match define {
+            Some(DefineState {
+                target: Some(target),
+                body,
+                ..
+            }) => (body, target),
+            _ => return Ok(()),
+        };
+
+        let value = match parse_ast(body.span()) {
+            Ok((_, value)) => value,
+            Err(e) => {
+                return Err(match e.into_error_kind() {
+                    nom::ErrorKind::Custom(kind) => kind,
+                    other => nom::error_to_u32(&other).into(),
+                })
             }
-            Action::Append(node) => {
-                engine.database = engine.database.append_to_variable(
-                    action.name,
-                    node.location(),
-                    VariableParameters::new(node, Flavor::Recursive, crate::eval::Origin::File),
-                    true,
-                )
+        };
+
+        let action = match action {
+            Action::Define(mut parameters) => {
+                parameters.unexpanded_value = if parameters.flavor == Flavor::Simple {
+                    evaluate_now(value, names, engine)
+                } else {
+                    value
+                };
+                Action::Define(parameters)
             }
-        }
+            Action::Append(_) if is_simple(engine, name) => {
+                Action::Append(evaluate_now(value, names, engine))
+            }
+            Action::Append(_) => Action::Append(value),
+        };
+        apply_action(engine, name, action);
 
         Ok(())
     }
@@ -130,15 +167,20 @@ impl crate::parsers::ParserState {
     /// Handle a line inside of a define
     pub(crate) fn handle_define_line(
         &mut self,
+        names: &mut crate::NameCache,
         engine: &mut Engine,
-        action: DefineLine,
+        line: DefineLine,
     ) -> Result<(), ParseErrorKind> {
+        if line.extra_tokens && !self.ignoring {
+            return Err(ParseErrorKind::ExtraTokensAfter("endef"));
+        }
+
         let define = self
             .current_define
             .as_mut()
             .expect("handle_define_line called when not defining anything");
 
-        match action.action {
+        match line.action {
             DefineLineAction::Append => {
                 // No special handling, we always append anyway.
             }
@@ -148,28 +190,47 @@ impl crate::parsers::ParserState {
             DefineLineAction::DecreaseNesting => {
                 define.nesting -= 1;
                 if define.nesting == 0 {
-                    // If we reach 0 nesting, unset the define line and return immediately
-                    self.current_define = None;
-                    return Ok(());
+                    // If we reach 0 nesting, the define is complete
+                    return self.finish_define(names, engine);
                 }
             }
         }
 
-        if define.discard {
-            return Ok(());
+        if define.target.is_some() {
+            Arc::make_mut(&mut define.body).push_all_contents(line.content);
         }
 
-        engine.database = engine.database.append_to_variable(
-            define.var,
-            action.location,
-            VariableParameters::new(action.content, Flavor::Recursive, crate::eval::Origin::File),
-            false,
-        );
-
         Ok(())
     }
 }
 
+/// Change the value of a variable
+fn apply_action(engine: &mut Engine, name: VariableName, action: Action) {
+    engine.database = match action {
+        Action::Define(parameters) => engine.database.set_variable(name, parameters),
+        Action::Append(node) => engine.database.append_to_variable(
+            name,
+            node.location(),
+            VariableParameters::new(node, Flavor::Recursive, crate::eval::Origin::File),
+            true,
+        ),
+    };
+}
+
+/// Is this a simply expanded variable?
+fn is_simple(engine: &Engine, name: VariableName) -> bool {
+    engine
+        .database
+        .get_variable(name)
+        .map_or(false, |v| v.value.flavor == Flavor::Simple)
+}
+
+/// Expand a value as of now, for a simply expanded variable
+fn evaluate_now(value: ast::AstNode, names: &mut crate::NameCache, engine: &mut Engine) -> ast::AstNode {
+    let contents = value.eval(names, engine);
+    ast::preevaluated(value.location(), contents)
+}
+
 /// Attempt to parse a variable reference in the context of a given database
 pub(crate) fn parse_line<'a>(
     i: BlockSpan<'a>,
@@ -358,11 +419,8 @@ fn parse_variable_assignment<'a>(
     let variable_name = names.intern_variable_name(variable_name);
 
     // #SPC-P-Variable.append_set_simple
-    let appends_to_simple = assignment_type == AssignmentType::Append
-        && context
-            .database
-            .get_variable(variable_name)
-            .map_or(false, |v| v.value.flavor == Flavor::Simple);
+    let appends_to_simple =
+        assignment_type == AssignmentType::Append && is_simple(context, variable_name);
 
     if assignment_type == AssignmentType::Simple || appends_to_simple {
         // Evaluate the value AST
@@ -419,8 +477,7 @@ pub(crate) fn parse_define_line<'a>(
     )?;
 
     debug!("Parsing define line {:?}", i.into_string());
-    let location = i.location().expect("There should be content on the line");
-    let (_, ast) = parse_ast(i)?;
+    let content = i;
 
     let (i, action) = pe_fix!(
         i,
@@ -436,19 +493,16 @@ pub(crate) fn parse_define_line<'a>(
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
 
     // The line ending the define may be followed by a comment
-    if action == DefineLineAction::DecreaseNesting
+    let extra_tokens = action == DefineLineAction::DecreaseNesting
         && i.len() != 0
-        && i.chars().next() != Some('#')
-    {
-        return super::fail_out(i, ParseErrorKind::ExtraTokensAfter("endef"));
-    }
+        && i.chars().next() != Some('#');
 
     Ok((
         next_lines,
         DefineLine {
-            action: action,
-            content: ast,
-            location: location,
+            action,
+            content,
+            extra_tokens,
         },
     ))
 }
-- 
2.43.0


From 3c256601fc0cc940f1ea30297a9ecae8661d7d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:47 +0000
Subject: [PATCH 39/44] fix: conditionals in the body of an ignored define were
 acted upon

---
 src/parsers/mod.rs          |  8 ++++++++
 src/parsers/variable/mod.rs | 11 +++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 726255e..261e8fb 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -227,6 +227,14 @@ impl ParserState {
         if self.ignoring {
             // The parse state indicates that we should just ignore this line
             // We've already collapsed continuations, so just return immediately
+            if variable::starts_define(line.span()) {
+                // Conditionals in the body are not ours
+                self.current_define = Some(DefineState {
+                    target: None,
+                    nesting: 1,
+                    body: Block::empty(),
+                });
+            }
             return Ok((i, ()));
         }
 
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index c74e982..9786a82 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -231,6 +231,17 @@ fn evaluate_now(value: ast::AstNode, names: &mut crate::NameCache, engine: &mut
     ast::preevaluated(value.location(), contents)
 }
 
+/// Does this line start a multi line definition?
+pub(crate) fn starts_define(i: BlockSpan) -> bool {
+    let keyword = preceded!(
+        i,
+        makefile_whitespace,
+        pe_complete!(terminated!(pe_fix!(tag_no_case!("define")), keyword_end))
+    );
+    // There may be a variable of that name
+    keyword.is_ok() && preceded!(i, makefile_whitespace, parse_assignment_operator).is_err()
+}
+
 /// Attempt to parse a variable reference in the context of a given database
 pub(crate) fn parse_line<'a>(
     i: BlockSpan<'a>,
-- 
2.43.0


From 212d5f109c06fbef88b23f1a28f92233e3800c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:50 +0000
Subject: [PATCH 40/44] fix: expand the name in a define without an operator

---
 src/parsers/variable/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 9786a82..918b3ca 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -248,7 +248,6 @@ pub(crate) fn parse_line<'a>(
     names: &mut crate::NameCache,
     context: &mut crate::Engine,
 ) -> IResult<BlockSpan<'a>, VariableAction, ParseErrorKind> {
-    use nom::Slice;
 
     #[derive(Debug, Copy, Clone)]
     enum Modifier {
@@ -348,8 +347,10 @@ pub(crate) fn parse_line<'a>(
                     }
                 }
                 // Failing that, just assume the whole thing is one big recursive variable name
-                let variable_name = names.intern_variable_name(i.into_string().trim().into());
-                let rest = i.slice(i.len()..);
+                let (rest, name_ast) = parse_ast(i)?;
+                let variable_name = name_ast.eval(names, context);
+                let variable_name = variable_name.into_string().trim().into();
+                let variable_name = names.intern_variable_name(variable_name);
                 return Ok((
                     rest,
                     VariableAction {
-- 
2.43.0


From 94a7681dab98521aa8e9e71806b1f1f6921f3dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 41/44] fix: references in assigned names may contain blanks
 and colons

---
 src/parsers/variable/mod.rs | 53 ++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 918b3ca..90d4a01 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -372,22 +372,55 @@ pub(crate) fn parse_line<'a>(
     }
 }
 
+/// How long is the name in front of an assignment operator (in bytes)? What is
+/// inside of a reference never ends the name.
+fn assigned_name_length(i: BlockSpan) -> usize {
+    let mut chars = i.char_indices();
+    while let Some((idx, c)) = chars.next() {
+        match c {
+            ':' | '=' | '!' | '?' | '+' => return idx,
+            c if c.is_whitespace() => return idx,
+            '$' => {
+                let mut inside = chars.clone();
+                let (open, close) = match inside.next() {
+                    Some((_, '(')) => ('(', ')'),
+                    Some((_, '{')) => ('{', '}'),
+                    Some((_, '$')) => {
+                        chars = inside;
+                        continue;
+                    }
+                    _ => continue,
+                };
+                let mut depth = 1;
+                while depth > 0 {
+                    match inside.next() {
+                        Some((_, c)) if c == open => depth += 1,
+                        Some((_, c)) if c == close => depth -= 1,
+                        Some(_) => {}
+                        None => break,
+                    }
+                }
+                // An unterminated reference is an error later on
+                if depth == 0 {
+                    chars = inside;
+                }
+            }
+            _ => {}
+        }
+    }
+
+    i.len()
+}
+
 /// Parse a span, returning the captured variable name and the type of
 /// assignment on success. The remaining content will start directly after the
 /// equals operator
 fn parse_assignment_operator<'a>(
     i: BlockSpan<'a>,
 ) -> IResult<BlockSpan<'a>, (BlockSpan<'a>, AssignmentType), ParseErrorKind> {
-    let (i, variable_name) = match take_till!(i, |c: char| c.is_whitespace()
-        || c == ':'
-        || c == '='
-        || c == '!'
-        || c == '?'
-        || c == '+')
-    {
-        Ok(v) => v,
-        Err(_) => return error_out(i, ParseErrorKind::InternalFailure("name not captured")),
-    };
+    use nom::InputTake;
+
+    let (i, variable_name) = i.take_split(assigned_name_length(i));
 
     debug!(
         "Captured variable name {:?}, {:?} left to parse",
-- 
2.43.0


From 4bc93b54cb0ee3d99843ada1b49d1891aea93a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:43 +0000
Subject: [PATCH 42/44] fix: a quoted # started a comment

---
 src/parsers/mod.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 261e8fb..0a1d87a 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -215,6 +215,10 @@ impl ParserState {
             }
         );
 
+        // The line of a rule is taken apart before its quotes are removed
+        let quoted_line = line;
+        let line = unquote_comments(quoted_line.span());
+
         debug!("Parsing in collapsed line {:?}", line.into_string());
         // If the line is empty, just succeed immediately
         if line.len() == 0 {
@@ -260,7 +264,7 @@ impl ParserState {
         }
 
         run_line_parser!(
-            targets::parse_line(line.span(), names, engine),
+            targets::parse_line(quoted_line.span(), names, engine),
             |target_action| self.handle_target_action(engine, target_action)
         );
 
@@ -319,7 +323,8 @@ pub enum LineEndReason {
     EOF,
 }
 
-/// Get a line, stopping on a UNIX line break, Windows line break, or the beginning of a comment
+/// Get a line, stopping on a UNIX line break, Windows line break, or the beginning of a comment.
+/// A `#` that is quoted by a backslash doesn't start a comment.
 pub fn makefile_grab_line<T>(input: T) -> IResult<T, (T, LineEndReason), ParseErrorKind>
 where
     T: Clone
@@ -330,10 +335,13 @@ where
         + nom::InputLength,
 {
     let mut last_char = None;
+    let mut backslash_count = 0;
     for (idx, c) in input.iter_indices() {
+        let quoted = backslash_count & 1 == 1;
+        backslash_count = if c == '\\' { backslash_count + 1 } else { 0 };
         match c {
             // Comments. The start of the comment is left in the input
-            '#' => return Ok((input.slice(idx..), (input.slice(..idx), LineEndReason::Comment))),
+            '#' if !quoted => return Ok((input.slice(idx..), (input.slice(..idx), LineEndReason::Comment))),
             '\n' => {
                 let line_end = if last_char == Some('\r') {
                     idx - 1 // Windows line endings
@@ -568,7 +576,11 @@ pub(crate) fn makefile_line(
     let mut lines: Vec<ContentReference> = Vec::new();
     let mut backslash_count = ends_with_backslash(first_line.0);
     if backslash_count & 1 == 0 {
-        // There is an even number of backslashes, so don't escape them
+        // There is an even number of backslashes, so don't escape them. The
+        // ones in front of a comment are quoted, though.
+        if first_line.1 == LineEndReason::Comment {
+            clean_line_end(&mut first_line.0, backslash_count, whitespace_handling);
+        }
         lines.push(first_line.0.to_content_reference());
         return Ok((i, Block::new(Default::default(), lines)));
     }
@@ -615,6 +627,9 @@ pub(crate) fn makefile_line(
         line_end_reason = new_line.1;
         backslash_count = ends_with_backslash(new_line.0);
         if backslash_count & 1 == 0 {
+            if line_end_reason == LineEndReason::Comment {
+                clean_line_end(&mut new_line.0, backslash_count, whitespace_handling);
+            }
             lines.push(new_line.0.to_content_reference());
             break;
         }
@@ -631,6 +646,12 @@ pub(crate) fn makefile_line(
     Ok((i, Block::new(Default::default(), lines)))
 }
 
+/// Remove the backslashes quoting a `#`
+fn unquote_comments(i: BlockSpan) -> Arc<Block> {
+    let (unquoted, _) = makefile_take_until_unquote(i, |c| c == '#');
+    unquoted
+}
+
 /// Matches the end of a keyword, without consuming anything. Keywords end at
 /// whitespace or the end of the line, `includes` is not an `include`.
 fn keyword_end<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
-- 
2.43.0


From fd5b610fdcdf7b20b38253c9cc5e65b53b00c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 43/44] fix: wrong argument counts in assigned values are
 reported as such

---
 src/parsers/variable/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 90d4a01..2e8b681 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -273,7 +273,12 @@ pub(crate) fn parse_line<'a>(
             Ok(v) => return Ok(v),
             Err(e) => {
                 match e.clone().into_error_kind() {
-                    nom::ErrorKind::Custom(ParseErrorKind::UnternimatedVariable) => return Err(e),
+                    // It is an assignment, but there's a mistake in one of its references
+                    nom::ErrorKind::Custom(ParseErrorKind::UnternimatedVariable)
+                    | nom::ErrorKind::Custom(ParseErrorKind::ExtraArguments(_))
+                    | nom::ErrorKind::Custom(ParseErrorKind::InsufficientArguments(_)) => {
+                        return Err(e)
+                    }
                     _ => {
                         // We don't propagate any other kind of error
                     }
-- 
2.43.0


From 6468e4a373ac4c7d884cd34709dfbe9d403fc8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:10 +0000
Subject: [PATCH 44/44] fix: a semicolon inside of a reference ended the rule
 line

---
 src/parsers/targets/mod.rs | 54 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index ecf4771..aa3b277 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -93,6 +93,52 @@ enum MWordEnd {
     VarAssign,
 }
 
+/// Follows a text character by character, to tell what is part of a variable reference
+#[derive(Copy, Clone, Debug, PartialEq, Eq)]
+enum ReferenceTracker {
+    /// Not inside of any reference
+    Outside,
+    /// Directly after a `$`
+    Dollar,
+    /// Inside of a reference, between brackets of this kind
+    Inside {
+        open: char,
+        close: char,
+        depth: usize,
+    },
+}
+
+impl ReferenceTracker {
+    /// Go on to the next character. Returns true if it is part of a reference
+    /// started earlier.
+    fn advance(&mut self, c: char) -> bool {
+        use self::ReferenceTracker::*;
+        let (next, is_inside) = match *self {
+            Outside if c == '$' => (Dollar, false),
+            Outside => (Outside, false),
+            Dollar => match c {
+                '(' => (Inside { open: '(', close: ')', depth: 1 }, true),
+                '{' => (Inside { open: '{', close: '}', depth: 1 }, true),
+                _ => (Outside, true),
+            },
+            Inside { open, close, depth } => {
+                let depth = match c {
+                    c if c == open => depth + 1,
+                    c if c == close => depth - 1,
+                    _ => depth,
+                };
+                if depth == 0 {
+                    (Outside, true)
+                } else {
+                    (Inside { open, close, depth }, true)
+                }
+            }
+        };
+        *self = next;
+        is_inside
+    }
+}
+
 /// This function parses a recipe line. It should be handed a reference to the
 /// line, uncollapsed, since we handle collapsing internally
 pub(crate) fn parse_line<'a>(
@@ -113,7 +159,13 @@ pub(crate) fn parse_line<'a>(
     //
     // line is the storage backing "line_next" which is our model for lb_next
     // post_semi_content is essentially cmdleft
-    let (line, semip) = match makefile_take_until_unquote(line.span(), |c| (c == ';' || c == '#')) {
+    //
+    // A semicolon inside of a reference belongs to the reference.
+    let mut references = ReferenceTracker::Outside;
+    let (line, semip) = match makefile_take_until_unquote(line.span(), |c| {
+        let in_reference = references.advance(c);
+        (c == ';' && !in_reference) || c == '#'
+    }) {
         (pre, Some((stopchar, post))) => {
             if stopchar.iter_elements().next() == Some('#') {
                 (pre, None)
-- 
2.43.0

