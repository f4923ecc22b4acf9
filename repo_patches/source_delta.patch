From 77f0fd0eb1d91dc83bf0ced3e351ce862c022ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 01/23] fix: keep the bracket variant of stage 1 scopes

---
 src/ast1/document.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 60f1691..754d39b 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -300,12 +300,11 @@ impl FromStr for Document {
                         crate::ErrorType::UnclosedScope(*variant),
                     ))
                 }
-                Buffer::Scope { content, .. } => chunks.push(Chunk::new_unchecked(
+                Buffer::Scope {
+                    content, variant, ..
+                } => chunks.push(Chunk::new_unchecked(
                     buffer_line_no,
-                    ChunkVariant::Scope(Scope::new_unchecked(
-                        eval_scope!(content),
-                        ScopeVariant::Curly,
-                    )),
+                    ChunkVariant::Scope(Scope::new_unchecked(eval_scope!(content), *variant)),
                 )),
                 Buffer::Command { depth, scopes, .. } if *depth != 0 => {
                     return Err(crate::Error::new(
-- 
2.43.0


From 26fe4f59ecacc28c5e35eb8f119304c2fe296e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 02/23] fix: keep nested brackets inside command arguments

---
 src/ast1/document.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 754d39b..aac08ee 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -454,8 +454,16 @@ impl FromStr for Document {
                         buffer_line_no =
                             line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                     }
-                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => *depth += 1,
-                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => *depth -= 1,
+                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => {
+                        *depth += 1;
+                        buffer.push(c)
+                    }
+                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => {
+                        *depth -= 1;
+                        if *depth != 0 {
+                            buffer.push(c)
+                        }
+                    }
                     c if *depth == 0 && ScopeVariant::is_closing(c) => {
                         return Err(crate::Error::new(
                             line_no,
-- 
2.43.0


From 8040b217616617785748aba44f9136647a6d387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 03/23] fix: an escaped character after a command starts a new
 command

---
 src/ast1/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index aac08ee..a795caa 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -411,10 +411,10 @@ impl FromStr for Document {
                     trailing,
                     ..
                 } => match c {
-                    c if *depth == 0 && ScopeVariant::is_opening(c) => {
+                    c if *depth == 0 && !escaped && ScopeVariant::is_opening(c) => {
                         buffer.push_scope(ScopeVariant::from_opening(c))
                     }
-                    c if *depth == 0 && c.is_whitespace() => trailing.push(c),
+                    c if *depth == 0 && !escaped && c.is_whitespace() => trailing.push(c),
                     c if *depth == 0 && escaped => {
                         let trailing = trailing.clone();
                         flush!();
-- 
2.43.0


From 926a17d652c57a56cb4b6fe844a2437f57f40d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 04/23] fix: a backslash inside a comment does not escape

---
 src/ast1/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index a795caa..6e17dcc 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -355,6 +355,7 @@ impl FromStr for Document {
                     comment = false;
                     line_no += 1
                 }
+                _ if comment => continue,
                 '%' if !escaped => {
                     comment = true;
                     continue;
@@ -363,7 +364,6 @@ impl FromStr for Document {
                     escaped = true;
                     continue;
                 }
-                _ if comment => continue,
                 _ => {}
             }
 
-- 
2.43.0


From 6079185c1d40b1ba02bfd1ff9b60368c7fb8d422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 05/23] fix: keep a lone backslash at the end of the input

---
 src/ast1/document.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 6e17dcc..f128f9e 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -498,6 +498,14 @@ impl FromStr for Document {
             }
         }
 
+        // a backslash with nothing left to escape
+        if escaped {
+            chunks.push(Chunk::new_unchecked(
+                line_no,
+                ChunkVariant::Command(Command::new_unchecked(String::new(), Vec::new())),
+            ))
+        }
+
         Ok(Self(chunks))
     }
 }
-- 
2.43.0


From 8f96a59c103ef7a6ded700871b683e6156814833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 06/23] fix: line number of an escaped newline command

---
 src/ast1/document.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index f128f9e..c7c4819 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -350,6 +350,9 @@ impl FromStr for Document {
         }
 
         for c in s.chars() {
+            // line which the current character is in
+            let char_line_no = line_no;
+
             match c {
                 '\n' => {
                     comment = false;
@@ -371,6 +374,7 @@ impl FromStr for Document {
                 Buffer::Text { .. } => match c {
                     c if escaped => {
                         flush!();
+                        buffer_line_no = char_line_no;
                         buffer = Buffer::command();
                         buffer.push(c);
 
@@ -425,13 +429,13 @@ impl FromStr for Document {
 
                             flush(
                                 &mut buffer,
-                                buffer_line_no
+                                char_line_no
                                     - trailing.chars().filter(|c| *c == '\n').count() as u32,
                                 &mut chunks,
                             )?;
                         }
 
-                        buffer_line_no = line_no;
+                        buffer_line_no = char_line_no;
 
                         buffer = Buffer::command();
                         buffer.push(c);
-- 
2.43.0


From 2ab5e19c673febaf0b83f174bb7b17e531cda8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 07/23] fix: line number of whitespace trailing a command at
 the end of the input

---
 src/ast1/document.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index c7c4819..9dd6c3c 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -495,6 +495,8 @@ impl FromStr for Document {
                 flush!();
                 buffer = Buffer::text();
                 buffer.push_str(&trailing);
+                buffer_line_no =
+                    line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                 flush!();
             }
             _ => {
-- 
2.43.0


From 89560e98c91870926cddb5ff5fb2dfe9fdbd1dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 08/23] fix: line numbers of errors inside command arguments

---
 src/ast1/document.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 9dd6c3c..101082b 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -315,10 +315,26 @@ impl FromStr for Document {
                 Buffer::Command { label, scopes, .. } => {
                     let mut arguments = Vec::with_capacity(scopes.len());
 
+                    fn newlines(s: &str) -> u32 {
+                        s.chars().filter(|c| *c == '\n').count() as u32
+                    }
+
+                    // number of lines between the command and the current argument
+                    let mut line_offset = 0;
+
                     for (content, variant, preceding) in scopes.iter_mut() {
+                        line_offset += newlines(preceding);
+
+                        let argument = Document::from_str(content).map_err(|mut e| {
+                            e.line += line_offset;
+                            e
+                        })?;
+
+                        line_offset += newlines(content);
+
                         arguments.push((
                             std::mem::take(preceding),
-                            Scope::new_unchecked(eval_scope!(content), *variant),
+                            Scope::new_unchecked(argument.chunks_owned(), *variant),
                         ))
                     }
 
-- 
2.43.0


From 45ef93492481907c2bae069b729c2e199d3a2388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 09/23] fix: environment chunks start at the line of their
 begin command

---
 src/ast2/chunk.rs    | 8 +++++---
 src/ast2/document.rs | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ast2/chunk.rs b/src/ast2/chunk.rs
index 050cd31..0270d6b 100644
--- a/src/ast2/chunk.rs
+++ b/src/ast2/chunk.rs
@@ -42,10 +42,9 @@ impl ast1::IntoChunks for Chunk {
                         s.chars().filter(|c| c == &'\n').count()
                     }
 
-                    let end_line_no = self.line_no
+                    let content_line_no = self.line_no
                         + (lines(&prec_begin)
                             + label.chars().filter(|c| c == &'\n').count()
-                            + lines(&Document::new_unchecked(content.clone()).to_string())
                             + args
                                 .iter()
                                 .map(|(prec, arg)| {
@@ -60,6 +59,9 @@ impl ast1::IntoChunks for Chunk {
                                 })
                                 .sum::<usize>()) as u32;
 
+                    let end_line_no = content_line_no
+                        + lines(&Document::new_unchecked(content.clone()).to_string()) as u32;
+
                     let label = ast1::Scope::new_unchecked(
                         ast1::Document::from_str(&label).unwrap().chunks_owned(),
                         ast1::ScopeVariant::Curly,
@@ -80,7 +82,7 @@ impl ast1::IntoChunks for Chunk {
                     )]
                     .into_iter()
                     .chain(content.into_iter().flat_map(|mut chunk| {
-                        chunk.line_no += self.line_no - 1;
+                        chunk.line_no += content_line_no - 1;
                         chunk.into_chunks()
                     }))
                     .chain(
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index d51c0e8..a766cf9 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -201,6 +201,7 @@ impl TryFrom<crate::ast1::Document> for Document {
         let mut chunks = Vec::new();
 
         let mut buffer_stack = Vec::new();
+        let mut env_line_no = 0;
         let mut buffer_start = 0;
         let mut env_args = Vec::new();
         let mut buffer: Vec<ast1::Chunk> = Vec::new();
@@ -288,6 +289,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                                     s.chars().filter(|c| c == &'\n').count()
                                 }
 
+                                env_line_no = line_no;
                                 buffer_start = line_no
                                     + c.arguments()
                                         .iter()
@@ -336,7 +338,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                                 }
 
                                 chunks.push(Chunk::new_unchecked(
-                                    buffer_start,
+                                    env_line_no,
                                     ChunkVariant::Environment(Environment::new_unchecked(
                                         ast1::Document::new_unchecked(label.chunks_owned())
                                             .to_string(),
@@ -361,7 +363,7 @@ impl TryFrom<crate::ast1::Document> for Document {
 
         if let Some(label) = buffer_stack.first() {
             return Err(crate::Error::new(
-                buffer_start,
+                env_line_no,
                 crate::ErrorType::UnclosedEnvironment(
                     ast1::Document::new_unchecked(label.clone()).to_string(),
                 ),
-- 
2.43.0


From da29d5ca53ae5331dc72932ff3e27c20ad5355c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 10/23] fix: line numbers of stage 2 errors inside scopes,
 commands and environments

---
 src/ast2/command.rs  | 18 +++++++++++++++++-
 src/ast2/document.rs | 27 +++++++++++++++++++++++----
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/ast2/command.rs b/src/ast2/command.rs
index 21dfafe..3a8b9b5 100644
--- a/src/ast2/command.rs
+++ b/src/ast2/command.rs
@@ -84,8 +84,24 @@ impl TryFrom<crate::ast1::Command> for Command {
 
         let mut arguments = Vec::with_capacity(arguments_o.len());
 
+        fn newlines(s: &str) -> u32 {
+            s.chars().filter(|c| c == &'\n').count() as u32
+        }
+
+        // number of lines between the command and the current argument
+        let mut line_offset = newlines(&label);
+
         for (prec, scope) in arguments_o {
-            arguments.push((prec, scope.try_into()?))
+            line_offset += newlines(&prec);
+            let arg_lines = scope.lines() - 1;
+            arguments.push((
+                prec,
+                scope.try_into().map_err(|mut e: crate::Error| {
+                    e.line += line_offset;
+                    e
+                })?,
+            ));
+            line_offset += arg_lines;
         }
 
         Ok(Self { label, arguments })
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index a766cf9..837a6c1 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -227,7 +227,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += line_no;
+                            e.line += line_no - 1;
                             return Err(e);
                         }
                     }
@@ -239,7 +239,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += buffer_start;
+                            e.line += buffer_start - 1;
                             return Err(e);
                         }
                     }
@@ -258,7 +258,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                 ast1::ChunkVariant::Command(c) => {
                     if !matches!(c.label().as_str(), "begin" | "end") {
                         if buffer_stack.is_empty() {
-                            push_chunks!(ChunkVariant::Command(c.try_into()?));
+                            push_chunks!(ChunkVariant::Command(map_e!(c.try_into())));
                         } else {
                             push_buffer!(ast1::ChunkVariant::Command(c));
                         }
@@ -333,8 +333,27 @@ impl TryFrom<crate::ast1::Document> for Document {
 
                                 let mut args_new = Vec::with_capacity(arguments.len());
 
+                                fn newlines(s: &str) -> u32 {
+                                    s.chars().filter(|c| c == &'\n').count() as u32
+                                }
+
+                                // line which the current argument starts in
+                                let mut arg_line_no = env_line_no
+                                    + newlines(&prec_begin)
+                                    + label.lines()
+                                    - 1;
+
                                 for (prec, scope) in arguments {
-                                    args_new.push((prec, scope.try_into()?))
+                                    arg_line_no += newlines(&prec);
+                                    let arg_lines = scope.lines() - 1;
+                                    args_new.push((
+                                        prec,
+                                        scope.try_into().map_err(|mut e: crate::Error| {
+                                            e.line += arg_line_no - 1;
+                                            e
+                                        })?,
+                                    ));
+                                    arg_line_no += arg_lines;
                                 }
 
                                 chunks.push(Chunk::new_unchecked(
-- 
2.43.0


From 2c1c02f504267b8e16a277ffa0984c4b4ae05a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 11/23] fix: write the string preceding the argument of the end
 command of the document

---
 src/ast3/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 1d2944a..0efd58e 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -479,7 +479,7 @@ impl Display for Document {
                         ChunkVariant::Command(Command::new_unchecked(
                             "end".to_string(),
                             vec![(
-                                self.body_begin_prec.clone(),
+                                self.body_end_prec.clone(),
                                 Scope::new_unchecked(
                                     vec![Chunk::new_unchecked(
                                         1,
-- 
2.43.0


From 479b174393c02f0539acdedfccc6b6c12415aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 12/23] fix: count all lines of stage 3 documents

---
 src/ast3/document.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 0efd58e..e6505f0 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -55,12 +55,29 @@ impl Validate for Document {
 
 impl Lines for Document {
     fn lines(&self) -> u32 {
+        let precs = self
+            .body_begin_prec
+            .chars()
+            .chain(self.body_end_prec.chars())
+            .filter(|c| c == &'\n')
+            .count() as u32;
+
+        let args = self
+            .body_args
+            .iter()
+            .map(|(prec, arg)| {
+                prec.chars().filter(|c| c == &'\n').count() as u32 + arg.lines() - 1
+            })
+            .sum::<u32>();
+
         self.preamable
             .iter()
             .chain(self.body.iter())
             .chain(self.trailing.iter())
             .map(|chunk| chunk.lines() - 1)
             .sum::<u32>()
+            + precs
+            + args
             + 1
     }
 }
-- 
2.43.0


From 08747e644efedcbbf263b46c23d9e1adcac5ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 13/23] fix: validate the arguments of the document environment

---
 src/ast3/document.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index e6505f0..2fc810b 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -49,6 +49,10 @@ impl Validate for Document {
             }
         }
 
+        for (_, arg) in self.body_args.iter() {
+            arg.validate()?
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 6c8c672c469700704298ec8c68298c862f4291b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 14/23] fix: a second document environment does not replace the
 body

---
 src/ast3/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 2fc810b..8321ad2 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -310,7 +310,9 @@ impl TryFrom<ast2::Document> for Document {
             let (line_no, variant) = chunk.decompose();
 
             match variant {
-                ast2::ChunkVariant::Environment(env) if env.label().as_str() == "document" => {
+                ast2::ChunkVariant::Environment(env)
+                    if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
+                {
                     let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
                     construct.body_args = args;
                     construct.body = content;
-- 
2.43.0


From 0fa4759d5c11b77a0c220ac866b6db16cf02964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 15/23] fix: parse document class options

---
 src/ast3/document.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 8321ad2..e1c76b1 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -367,6 +367,7 @@ impl TryFrom<ast2::Document> for Document {
                                             BufferMode::Prec => {
                                                 prec.push_str(&buffer);
                                                 buffer.clear();
+                                                arg.push(c);
                                                 buffermode = BufferMode::Arg;
                                             }
                                             BufferMode::Arg if !c.is_whitespace() => arg.push(c),
@@ -419,14 +420,11 @@ impl TryFrom<ast2::Document> for Document {
                                         {
                                             let mut val_started = false;
 
-                                            for c in k.chars() {
+                                            for c in v.chars() {
                                                 if c.is_whitespace() && !val_started {
                                                     equal_post.push(c)
                                                 } else {
-                                                    if val_started {
-                                                        val_started = true;
-                                                    }
-
+                                                    val_started = true;
                                                     val.push(c)
                                                 }
                                             }
-- 
2.43.0


From 5e50bd0d3fef646e345ca152cf84bbacb9de3a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 16/23] fix: line number of paragraph breaks with more than two
 newlines

---
 src/ast3/paragraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast3/paragraph.rs b/src/ast3/paragraph.rs
index 588a649..ba09ecd 100644
--- a/src/ast3/paragraph.rs
+++ b/src/ast3/paragraph.rs
@@ -19,7 +19,7 @@ impl Paragraph {
             if let ChunkVariant::Text(s) = chunk.variant() {
                 for c in s.chars() {
                     match c {
-                        '\n' if consec_newlines == 1 => {
+                        '\n' if consec_newlines >= 1 => {
                             consec_newlines += 1;
                             line_no += 1;
 
-- 
2.43.0


From feb71cc33078cdf47f25d39e8e772eb1715cdc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 17/23] fix: line numbers of the sections of stage 3 documents

---
 src/ast2/document.rs | 13 ++-----------
 src/ast3/document.rs | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 837a6c1..ebf0b09 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -150,21 +150,12 @@ impl From<ast3::Document> for Document {
 
         let mut out = Document::new_unchecked(preamable);
 
-        let body_offset = body_args
-            .iter()
-            .map(|(s, arg)| s.chars().filter(|c| c == &'\n').count() as u32 + arg.lines() - 1)
-            .sum::<u32>()
-            + body_begin_prec.chars().filter(|c| c == &'\n').count() as u32;
         let body_chunks = body
             .into_iter()
             .flat_map(ast3::Chunk::into_chunks)
-            .map(|mut chunk| {
-                *chunk.line_no_mut() += body_offset;
-                chunk
-            })
             .collect::<Vec<_>>();
         let body = Chunk::new_unchecked(
-            prem_lines,
+            prem_lines + 1,
             ChunkVariant::Environment(Environment::new_unchecked(
                 "document".to_string(),
                 body_args
@@ -177,7 +168,7 @@ impl From<ast3::Document> for Document {
             )),
         );
 
-        let trailing_offset = body.lines() + prem_lines - 2;
+        let trailing_offset = body.lines() + prem_lines - 1;
 
         out.push_chunk_unchecked(body);
 
diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index e1c76b1..045be29 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -296,7 +296,7 @@ impl TryFrom<ast2::Document> for Document {
         let mut construct = Self::default();
 
         let mut preamable = Vec::new();
-        let mut trailing = Vec::new();
+        let mut trailing: Vec<ast2::Chunk> = Vec::new();
 
         #[derive(PartialEq)]
         enum CursorState {
@@ -452,7 +452,22 @@ impl TryFrom<ast2::Document> for Document {
         }
 
         construct.preamable = Paragraph::from_chunks(MathsBlock::from_chunks(preamable)?);
-        construct.trailing = Paragraph::from_chunks(MathsBlock::from_chunks(trailing)?);
+
+        // lines in trailing are relative to the end of the document environment
+        let trailing_offset = trailing
+            .first()
+            .map(|chunk| chunk.line_no() - 1)
+            .unwrap_or_default();
+
+        for chunk in trailing.iter_mut() {
+            *chunk.line_no_mut() -= trailing_offset;
+        }
+
+        construct.trailing =
+            Paragraph::from_chunks(MathsBlock::from_chunks(trailing).map_err(|mut e| {
+                e.line += trailing_offset;
+                e
+            })?);
 
         Ok(construct)
     }
-- 
2.43.0


From 5a3195c8fee76096a0b3ad1c1392e33695a48cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 18/23] fix: keep nested brackets inside bracketed maths blocks

---
 src/ast3/mathsblock.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 9463944..8159ce0 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -109,13 +109,21 @@ impl MathsBlock {
                     if cmd.label() == "("
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "["
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == ")"
@@ -153,13 +161,21 @@ impl MathsBlock {
                     if cmd.label() == ")"
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "]"
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
-- 
2.43.0


From b766b619d76f0129e141dd955c4c845940f7b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 19/23] fix: keep text inside dollar maths blocks in order

---
 src/ast3/mathsblock.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 8159ce0..ccf7b5f 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -209,10 +209,18 @@ impl MathsBlock {
                     macro_rules! push_str {
                         () => {
                             if !text_buffer.is_empty() {
-                                out.push(Chunk::new_unchecked(
-                                    text_buffer_line,
-                                    ChunkVariant::Text(std::mem::take(&mut text_buffer)),
-                                ))
+                                if mode == MathsMode::None {
+                                    out.push(Chunk::new_unchecked(
+                                        text_buffer_line,
+                                        ChunkVariant::Text(std::mem::take(&mut text_buffer)),
+                                    ))
+                                } else {
+                                    // more to come before the maths block is closed
+                                    buffer.push(ast2::Chunk::new_unchecked(
+                                        text_buffer_line,
+                                        ast2::ChunkVariant::Text(std::mem::take(&mut text_buffer)),
+                                    ))
+                                }
                             }
                         };
                     }
-- 
2.43.0


From 0117ed52cbaa10a6ac2e54c6390f0dd033b1e1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 20/23] fix: keep a single dollar inside double dollar maths
 blocks

---
 src/ast3/mathsblock.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index ccf7b5f..6709521 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -313,10 +313,21 @@ impl MathsBlock {
                                 | MathsMode::DoubleDollar(MathsVariant::Brackets) => {}
                             }
                         } else {
+                            if mode == MathsMode::DoubleClosing {
+                                // only a single dollar, this is not the end of the maths block
+                                mode = MathsMode::DoubleDollar(MathsVariant::Dollars);
+                                text_buffer.push('$');
+                            }
+
                             text_buffer.push(c)
                         }
                     }
 
+                    if mode == MathsMode::DoubleClosing {
+                        mode = MathsMode::DoubleDollar(MathsVariant::Dollars);
+                        text_buffer.push('$');
+                    }
+
                     push_str!()
                 }
                 _ => buffer.push(ast2::Chunk::new_unchecked(line_no, variant)),
-- 
2.43.0


From 2806073545bcc39f423011d2a6b01ac2d31b8bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 21/23] fix: line numbers of maths blocks and their content

---
 src/ast3/mathsblock.rs | 49 +++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 6709521..2d64b2d 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -62,6 +62,22 @@ impl Lines for MathsBlock {
 }
 
 impl MathsBlock {
+    /// Maps the content of a maths block starting in `buffer_line` to `Vec<Chunk>`
+    /// with lines relative to the maths block
+    fn from_buffer(
+        mut buffer: Vec<ast2::Chunk>,
+        buffer_line: u32,
+    ) -> Result<Vec<Chunk>, crate::Error> {
+        for chunk in buffer.iter_mut() {
+            *chunk.line_no_mut() -= buffer_line - 1;
+        }
+
+        Self::from_chunks(buffer).map_err(|mut e| {
+            e.line += buffer_line - 1;
+            e
+        })
+    }
+
     /// Maps a `Vec<ast2::Chunk>` to `Vec<Chunk>` with MathsBlocks
     pub fn from_chunks(chunks: Vec<ast2::Chunk>) -> Result<Vec<Chunk>, crate::Error> {
         #[derive(PartialEq)]
@@ -137,7 +153,7 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Inline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
+                            Self::from_buffer(std::mem::take(&mut buffer), buffer_line)?,
                         )),
                     ))
                 }
@@ -153,7 +169,7 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Outline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
+                            Self::from_buffer(std::mem::take(&mut buffer), buffer_line)?,
                         )),
                     ))
                 }
@@ -235,6 +251,7 @@ impl MathsBlock {
                                 MathsMode::None => {
                                     push_str!();
                                     mode = MathsMode::SingleDollar(MathsVariant::Dollars);
+                                    buffer_line = cursor_line_no;
                                     text_buffer_line = cursor_line_no;
                                 }
                                 MathsMode::SingleDollar(MathsVariant::Dollars)
@@ -258,19 +275,13 @@ impl MathsBlock {
                                     }
 
                                     out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
+                                        buffer_line,
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Outline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
+                                            Self::from_buffer(
+                                                std::mem::take(&mut buffer),
+                                                buffer_line,
                                             )?,
                                         )),
                                     ));
@@ -290,19 +301,13 @@ impl MathsBlock {
                                     }
 
                                     out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
+                                        buffer_line,
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Inline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
+                                            Self::from_buffer(
+                                                std::mem::take(&mut buffer),
+                                                buffer_line,
                                             )?,
                                         )),
                                     ));
-- 
2.43.0


From 629921ff506287dceb689ebfd9fa924147278def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 22/23] fix: line numbers of stage 3 errors inside scopes,
 commands and environments

---
 src/ast3/command.rs     | 18 +++++++++++++++++-
 src/ast3/document.rs    |  7 ++++++-
 src/ast3/environment.rs | 23 +++++++++++++++++++++--
 src/ast3/mathsblock.rs  | 12 +++++++++---
 4 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/src/ast3/command.rs b/src/ast3/command.rs
index 48ccd85..487db50 100644
--- a/src/ast3/command.rs
+++ b/src/ast3/command.rs
@@ -69,8 +69,24 @@ impl TryFrom<ast2::Command> for Command {
 
         let mut args_new = Vec::with_capacity(args.len());
 
+        fn newlines(s: &str) -> u32 {
+            s.chars().filter(|c| c == &'\n').count() as u32
+        }
+
+        // number of lines between the command and the current argument
+        let mut line_offset = newlines(&label);
+
         for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
+            line_offset += newlines(&prec);
+            let arg_lines = scope.lines() - 1;
+            args_new.push((
+                prec,
+                scope.try_into().map_err(|mut e: crate::Error| {
+                    e.line += line_offset;
+                    e
+                })?,
+            ));
+            line_offset += arg_lines;
         }
 
         Ok(Self::new_unchecked(label, args_new))
diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 045be29..8d4794e 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -313,7 +313,12 @@ impl TryFrom<ast2::Document> for Document {
                 ast2::ChunkVariant::Environment(env)
                     if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
                 {
-                    let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
+                    let (_, args, content, begin, end) = Environment::try_from(env)
+                        .map_err(|mut e| {
+                            e.line += line_no - 1;
+                            e
+                        })?
+                        .decompose();
                     construct.body_args = args;
                     construct.body = content;
                     construct.body_begin_prec = begin;
diff --git a/src/ast3/environment.rs b/src/ast3/environment.rs
index e382aad..33e7286 100644
--- a/src/ast3/environment.rs
+++ b/src/ast3/environment.rs
@@ -90,14 +90,33 @@ impl TryFrom<ast2::Environment> for Environment {
 
         let mut args_new = Vec::with_capacity(args.len());
 
+        fn newlines(s: &str) -> u32 {
+            s.chars().filter(|c| c == &'\n').count() as u32
+        }
+
+        // number of lines between the environment and the current argument
+        let mut line_offset = newlines(&prec_begin) + newlines(&label);
+
         for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
+            line_offset += newlines(&prec);
+            let arg_lines = scope.lines() - 1;
+            args_new.push((
+                prec,
+                scope.try_into().map_err(|mut e: crate::Error| {
+                    e.line += line_offset;
+                    e
+                })?,
+            ));
+            line_offset += arg_lines;
         }
 
         Ok(Self::new_unchecked(
             label,
             args_new,
-            Paragraph::from_chunks(MathsBlock::from_chunks(content)?),
+            Paragraph::from_chunks(MathsBlock::from_chunks(content).map_err(|mut e| {
+                e.line += line_offset;
+                e
+            })?),
             prec_begin,
             prec_end,
         ))
diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 2d64b2d..ed4bb94 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -98,6 +98,12 @@ impl MathsBlock {
         for chunk in chunks {
             let (line_no, variant) = chunk.decompose();
 
+            // map error lines inside the chunk to its absolute line number
+            let map_e = |mut e: crate::Error| {
+                e.line += line_no - 1;
+                e
+            };
+
             match variant {
                 ast2::ChunkVariant::Command(cmd)
                     if mode == MathsMode::None && matches!(cmd.label().as_str(), ")" | "]") =>
@@ -196,19 +202,19 @@ impl MathsBlock {
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Scope(s.try_into()?),
+                        ChunkVariant::Scope(s.try_into().map_err(map_e)?),
                     ));
                 }
                 ast2::ChunkVariant::Environment(env) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Environment(env.try_into()?),
+                        ChunkVariant::Environment(env.try_into().map_err(map_e)?),
                     ));
                 }
                 ast2::ChunkVariant::Command(cmd) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Command(cmd.try_into()?),
+                        ChunkVariant::Command(cmd.try_into().map_err(map_e)?),
                     ));
                 }
                 ast2::ChunkVariant::Text(s)
-- 
2.43.0


From 0c44102a90a6124277469e2104d427e4538ccc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 23/23] fix: build without the eq feature

---
 src/ast1/chunk.rs        | 3 +--
 src/ast1/chunkvariant.rs | 3 +--
 src/ast1/command.rs      | 3 +--
 src/ast3/mathsvariant.rs | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ast1/chunk.rs b/src/ast1/chunk.rs
index 1b65fe9..6714529 100644
--- a/src/ast1/chunk.rs
+++ b/src/ast1/chunk.rs
@@ -11,9 +11,8 @@ use super::chunkvariant::ChunkVariant;
 ///
 /// - `Vec<Chunk>` makes a Document
 /// - Each chunk has a line number, indicating the line number its starting character is in
-#[derive(Clone)]
+#[derive(Clone, PartialEq, Eq)]
 #[cfg_attr(feature = "debug", derive(Debug))]
-#[cfg_attr(feature = "eq", derive(PartialEq, Eq))]
 pub struct Chunk {
     line_no: u32,
     variant: ChunkVariant,
diff --git a/src/ast1/chunkvariant.rs b/src/ast1/chunkvariant.rs
index 86eeff1..be99a77 100644
--- a/src/ast1/chunkvariant.rs
+++ b/src/ast1/chunkvariant.rs
@@ -5,9 +5,8 @@ use crate::traits::{Lines, Validate};
 use super::{command::Command, scope::Scope, ScopeVariant};
 
 /// Different types of things a chunk can be
-#[derive(Clone)]
+#[derive(Clone, PartialEq, Eq)]
 #[cfg_attr(feature = "debug", derive(Debug))]
-#[cfg_attr(feature = "eq", derive(PartialEq, Eq))]
 pub enum ChunkVariant {
     /// Basic block of string
     Text(String),
diff --git a/src/ast1/command.rs b/src/ast1/command.rs
index f8cef69..6d16396 100644
--- a/src/ast1/command.rs
+++ b/src/ast1/command.rs
@@ -10,9 +10,8 @@ use crate::InternalError;
 use super::scope::Scope;
 
 /// Represents a command and its arguments
-#[derive(Clone)]
+#[derive(Clone, PartialEq, Eq)]
 #[cfg_attr(feature = "debug", derive(Debug))]
-#[cfg_attr(feature = "eq", derive(PartialEq, Eq))]
 pub struct Command {
     /// Name of the command
     label: String,
diff --git a/src/ast3/mathsvariant.rs b/src/ast3/mathsvariant.rs
index 05f6bbc..08eae36 100644
--- a/src/ast3/mathsvariant.rs
+++ b/src/ast3/mathsvariant.rs
@@ -1,7 +1,6 @@
 /// Variant used to declare the maths block
-#[derive(Clone)]
+#[derive(Clone, PartialEq, Eq)]
 #[cfg_attr(feature = "debug", derive(Debug))]
-#[cfg_attr(feature = "eq", derive(PartialEq, Eq))]
 pub enum MathsVariant {
     /// \( or \[
     Brackets,
-- 
2.43.0

