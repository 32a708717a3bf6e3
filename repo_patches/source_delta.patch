From 5ce9db950a0ae97f5ff540e4774f54ff82ca60ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:49 +0000
Subject: [PATCH 01/16] fix: keep reading until a full UTF-8 character is
 available

A read that ended in the middle of a multi-byte character was reported as an
invalid UTF-8 character (and its bytes were dropped) when there was no
complete character before it. Invalid bytes were dropped as well, so the next
read could silently report end-of-file.
---
 src/reader.rs | 57 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8bebb25..8cbb40f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -60,33 +60,38 @@ impl<T, const BUFFER_SIZE: usize> Reader<T, BUFFER_SIZE> {
   {
     // get the current location
     let loc = self.span.start();
-    // read bytes to buffer
-    let count = self
-      .reader
-      .read(&mut self.byte_buf[self.byte_buf_offset..])
-      .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?
-      + self.byte_buf_offset;
-    // handle EOF
-    if count == 0 {
-      return Ok((None, loc));
-    }
-    // converts bytes to UTF-8 string
-    let (s, end) = match from_utf8(&self.byte_buf[..count]) {
-      Ok(s) => (s, None),
-      Err(e) => {
-        let end = e.valid_up_to();
-        // safe due to the above check
-        let s = unsafe { from_utf8_unchecked(&self.byte_buf[..end]) };
-        (s, Some(end))
+    let (c, count, end) = loop {
+      // read bytes to buffer
+      let read = self
+        .reader
+        .read(&mut self.byte_buf[self.byte_buf_offset..])
+        .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?;
+      let count = read + self.byte_buf_offset;
+      // handle EOF
+      if count == 0 {
+        return Ok((None, loc));
+      }
+      // converts bytes to UTF-8 string
+      let (s, err) = match from_utf8(&self.byte_buf[..count]) {
+        Ok(s) => (s, None),
+        Err(e) => {
+          // safe due to the above check
+          let s = unsafe { from_utf8_unchecked(&self.byte_buf[..e.valid_up_to()]) };
+          (s, Some(e))
+        }
+      };
+      // get the character and fill the char buffer
+      let mut chars = s.chars();
+      if let Some(c) = chars.next() {
+        self.char_buf.extend(chars.rev());
+        break (c, count, err.map(|e| e.valid_up_to()));
+      }
+      // keep all the bytes that can not be converted in the byte buffer
+      self.byte_buf_offset = count;
+      // read more bytes if the character is incomplete
+      if read == 0 || err.map_or(true, |e| e.error_len().is_some()) {
+        return log_raw_fatal_error!(self.span, "invalid UTF-8 character").into();
       }
-    };
-    // get the character and fill the char buffer
-    let mut chars = s.chars();
-    let c = if let Some(c) = chars.next() {
-      self.char_buf.extend(chars.rev());
-      c
-    } else {
-      return log_raw_fatal_error!(self.span, "invalid UTF-8 character").into();
     };
     // update byte buffer and its offset
     if let Some(end) = end {
-- 
2.43.0


From 8c717d04b208212b26a7066904cb8e98291829de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 02/16] fix: retry interrupted reads in readers

According to the contract of `Read::read`, an error of kind `Interrupted`
is non-fatal and the read operation should be retried.
---
 src/reader.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8cbb40f..d9c0cf4 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -19,6 +19,20 @@ use std::str::{from_utf8, from_utf8_unchecked};
 /// Size of the byte buffer.
 const BYTE_BUFFER_SIZE: usize = 1024;
 
+/// Reads bytes from the given reader to the buffer,
+/// retries if the read operation is interrupted.
+fn read_uninterrupted<R>(reader: &mut R, buf: &mut [u8]) -> io::Result<usize>
+where
+  R: Read,
+{
+  loop {
+    match reader.read(buf) {
+      Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+      result => return result,
+    }
+  }
+}
+
 /// A generic UTF-8 character reader for lexers.
 ///
 /// The generic parameter `BUFFER_SIZE` specifies the size of the internal
@@ -62,9 +76,8 @@ impl<T, const BUFFER_SIZE: usize> Reader<T, BUFFER_SIZE> {
     let loc = self.span.start();
     let (c, count, end) = loop {
       // read bytes to buffer
-      let read = self
-        .reader
-        .read(&mut self.byte_buf[self.byte_buf_offset..])
+      let buf = &mut self.byte_buf[self.byte_buf_offset..];
+      let read = read_uninterrupted(&mut self.reader, buf)
         .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?;
       let count = read + self.byte_buf_offset;
       // handle EOF
@@ -135,9 +148,7 @@ impl<T, const BUFFER_SIZE: usize> ByteReader<T, BUFFER_SIZE> {
     let loc = self.span.start();
     // read bytes to buffer
     let mut buf = [0; BUFFER_SIZE];
-    let count = self
-      .reader
-      .read(&mut buf)
+    let count = read_uninterrupted(&mut self.reader, &mut buf)
       .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?;
     // handle EOF
     if count == 0 {
-- 
2.43.0


From 032ad0377858130936673252747c03bff33da7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 03/16] fix: do not lose tokens when peeking fails

`maybe` of prefixed ASTs, `peek2` and `peek_n` promise not to advance the
token stream, but dropped the tokens they had already read on errors.
---
 src/ast.rs   |  8 ++++----
 src/token.rs | 14 +++++++-------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index fb85587..3e4ae14 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -510,9 +510,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       T::maybe(tokens)
     }
@@ -556,9 +556,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       Ok(false)
     }
diff --git a/src/token.rs b/src/token.rs
index afc387a..95d25fd 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -157,10 +157,10 @@ pub trait TokenStream: Tokenizer {
     Self::Token: Clone,
   {
     let token1 = self.next_token()?;
-    let token2 = self.next_token()?;
-    self.unread(token2.clone());
+    // put the first token back even if the second one is not available
+    let token2 = self.peek();
     self.unread(token1.clone());
-    Ok((token1, token2))
+    Ok((token1, token2?))
   }
 
   /// Peeks the next N tokens from the token stream.
@@ -170,11 +170,11 @@ pub trait TokenStream: Tokenizer {
   where
     Self::Token: Clone,
   {
-    let v = (0..n)
-      .map(|_| self.next_token())
-      .collect::<Result<Vec<_>>>()?;
+    let mut v = Vec::new();
+    let result = (0..n).try_for_each(|_| self.next_token().map(|t| v.push(t)));
+    // put all the read tokens back even if there is an error
     v.iter().rev().for_each(|t| self.unread(t.clone()));
-    Ok(v)
+    result.map(|_| v)
   }
 
   /// Skips tokens untils a token specified by the predicate is encountered.
-- 
2.43.0


From b8976272ae97d86148984bd7a337d58c3a6038f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 04/16] fix: keep kleene closures apart from their context in
 NFA

The initial state of a kleene closure had incoming edges and was shared with
the alternation or the outer kleene closure it belongs to, so `a*|b` matched
"ab" and `(a*b)*` matched "a".
---
 laps_regex/src/nfa.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/laps_regex/src/nfa.rs b/laps_regex/src/nfa.rs
index 05d3f8e..cec6085 100644
--- a/laps_regex/src/nfa.rs
+++ b/laps_regex/src/nfa.rs
@@ -51,12 +51,19 @@ where
         // create NFA and normalize
         let mut nfa = Self::new(*k);
         let id = nfa.normalize();
-        // create a edge to the initial state
+        // create edges from/to a new initial state and a new final state,
+        // since the initial state must not have any incoming edges
         let init = nfa.fa.init_id();
-        nfa.fa.state_mut(id).unwrap().add(None, init);
-        // set the initial state as a final state
-        nfa.fa.set_final_state(init);
-        nfa
+        let mut fa = MultiFA::new();
+        let fs = fa.add_final_state();
+        fa.init_mut().add(None, init);
+        fa.init_mut().add(None, fs);
+        let end = nfa.fa.state_mut(id).unwrap();
+        end.add(None, init);
+        end.add(None, fs);
+        // union states of two NFAs
+        fa.union(nfa.fa);
+        Self { fa, tags: nfa.tags }
       }
     }
   }
-- 
2.43.0


From 07be75dd1fb365896fbf443de20282801a8a66a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 05/16] fix: correct the last Unicode character in SymbolOp for
 char

U+10FFF was treated as the last character instead of U+10FFFF.
---
 laps_regex/src/mir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index f1f054b..636cb07 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -563,7 +563,7 @@ impl SymbolOp for char {
   fn next(&self) -> Option<Self> {
     match self {
       '\u{d7ff}' => Some('\u{e000}'),
-      '\u{10fff}' => None,
+      '\u{10ffff}' => None,
       _ => Some(unsafe { char::from_u32_unchecked(*self as u32 + 1) }),
     }
   }
-- 
2.43.0


From bdfe36641837b01db05f69270ef30f5b4f706cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 06/16] fix: avoid arithmetic overflow in SymbolOp for u8

`then_some` evaluates its argument eagerly.
---
 laps_regex/src/mir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 636cb07..0842d32 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -571,10 +571,10 @@ impl SymbolOp for char {
 
 impl SymbolOp for u8 {
   fn prev(&self) -> Option<Self> {
-    (*self != u8::MIN).then_some(self - 1)
+    self.checked_sub(1)
   }
 
   fn next(&self) -> Option<Self> {
-    (*self != u8::MAX).then_some(self + 1)
+    self.checked_add(1)
   }
 }
-- 
2.43.0


From cb2389e5731d6674f64dae936fcedff6192435bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:09 +0000
Subject: [PATCH 07/16] fix: keep the precedence of tags when removing
 duplicate expressions

If two regular expressions had a sub-expression in common, the optimizer kept
the tag of either the first or the last of them instead of the smaller one, so
the variant that appears first in a derived lexer was not always preferred.
---
 laps_regex/src/mir.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 0842d32..3879ee3 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -351,27 +351,22 @@ where
     if a.is_empty() {
       return Err(Error::MatchesNothing);
     }
-    // collect expressions that have a tag
-    let tagged_exps: HashMap<_, _> = a
-      .iter()
-      .filter_map(|(e, t)| t.clone().map(|t| (e.clone(), t)))
-      .collect();
     // optimize all sub-expressions, flatten nested alternations
-    // and remove duplicate expressions
+    // and remove duplicate expressions with the same tag
     let mut new_a = Vec::new();
     let mut set = HashSet::new();
-    for (e, _) in a {
-      // get the tag of the current expresson
-      let t = tagged_exps.get(&e).cloned();
+    for (e, t) in a {
       // optimize, and handle by kind
       match e.opt_without_rebuild()? {
         Self::Alter(a) => new_a.extend(
           a.into_iter()
-            .filter_map(|(e, inner_t)| set.insert(e.clone()).then(|| (e, t.clone().or(inner_t)))),
+            .map(|(e, inner_t)| (e, t.clone().or(inner_t)))
+            .filter(|et| set.insert(et.clone())),
         ),
         e => {
-          if set.insert(e.clone()) {
-            new_a.push((e, t));
+          let et = (e, t);
+          if set.insert(et.clone()) {
+            new_a.push(et);
           }
         }
       }
-- 
2.43.0


From 176478e069e1692e1cc22e1d8a6fc1401a9e2c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:09 +0000
Subject: [PATCH 08/16] fix: make room for the invalid state in tables of
 derived lexers

The element type of the table could not represent the invalid state if the
number of states was exactly 256 (or 65536), so the lexer went to state 0 when
it met a character that can not be accepted.
---
 laps_macros/src/tokenize.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 664ae23..2848f67 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -407,10 +407,11 @@ impl RegexImpls {
 
   /// Generates table type.
   fn table_ty(&self) -> TokenStream2 {
-    if self.num_states <= 1 {
+    if self.num_states == 0 {
       quote!(u8)
     } else {
-      let table_size_bits = (self.num_states - 1).ilog2() + 1;
+      // the table also contains `num_states`, which is an invalid state
+      let table_size_bits = self.num_states.ilog2() + 1;
       if table_size_bits <= 8 {
         quote!(u8)
       } else if table_size_bits <= 16 {
-- 
2.43.0


From 3608597ab8e1d535aac59765901882fe31525f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 09/16] fix: do not panic on regular expressions without any
 symbols

Building a matcher for a regular expression that matches only the empty string
indexed into an empty state-transition table.
---
 laps_regex/src/table.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/table.rs b/laps_regex/src/table.rs
index 2343ded..72518c8 100644
--- a/laps_regex/src/table.rs
+++ b/laps_regex/src/table.rs
@@ -34,9 +34,10 @@ impl<S, T> StateTransTable<S, T> {
   where
     S: Clone + Hash + Eq + Ord + SymbolOp,
   {
-    let (equivs, trans_table, init_id, tags) = TempTable::new(dfa).into_optimized();
+    let temp = TempTable::new(dfa);
     // get number of states
-    let num_states = trans_table[0].len();
+    let num_states = temp.num_states;
+    let (equivs, trans_table, init_id, tags) = temp.into_optimized();
     // get the final table
     let table = trans_table
       .into_iter()
@@ -139,6 +140,7 @@ struct TempTable<S, T> {
   table: HashMap<Vec<(S, S)>, Vec<usize>>,
   tags: HashMap<usize, T>,
   init_id: usize,
+  num_states: usize,
 }
 
 impl<S, T> TempTable<S, T> {
@@ -176,6 +178,7 @@ impl<S, T> TempTable<S, T> {
       table,
       tags,
       init_id: ids[&fa.init_id()],
+      num_states,
     }
   }
 
-- 
2.43.0


From d29545c16587a98d30bc64704ec8eb4dcfbd0413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 10/16] fix: make the crate compile without the logger feature

The error and warning counters have been atomic for a while, the
implementations without the logger feature still treated them as cells.
---
 src/span.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 9c73796..e067fe5 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -173,7 +173,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Normal(format!("{args}"))
   }
 
@@ -191,7 +191,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_fatal_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Fatal(format!("{args}"))
   }
 
@@ -209,7 +209,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_warning(&self, _: Arguments) {
     // update warning number
-    self.status.warnings.set(self.status.warnings.get() + 1);
+    self.status.warnings.fetch_add(1, Ordering::Relaxed);
   }
 
   /// Logs warning with no span provided.
-- 
2.43.0


From 8006aa4fec0d6152de486e8d7063b3e9c78a0a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 11/16] fix: do not panic while printing excerpts of source
 files

Columns with no visible characters before them, spans with unusual line
numbers and lines wider than 65535 columns were not handled.
---
 src/span.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index e067fe5..cff3ded 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -428,12 +428,12 @@ impl Span {
   fn print_file_info(&self, color: Color) {
     let file_type = &self.status.file_type;
     eprintln!("  {} {file_type}:{}", "at".blue(), self.start);
-    if self.start.col > 0 && self.end.col > 0 {
+    if self.start.line > 0 && self.start.col > 0 && self.end.col > 0 {
       if let FileType::File(path) = file_type {
         // open file and get lines, ignore all errors
         let _ = File::open(path).map_err(|_| fmt::Error).and_then(|file| {
           let mut lines = BufReader::new(file).lines();
-          if self.start.line == self.end.line {
+          if self.start.line >= self.end.line {
             self.print_single_line_info(&mut lines, color)
           } else {
             self.print_multi_line_info(&mut lines, color)
@@ -456,14 +456,15 @@ impl Span {
     let line_num = self.start.line as usize;
     let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
-    let leading = c1 - 1;
-    let len = c2 - c1 + 1;
+    // the columns can be zero if there are no visible characters before them
+    let leading = c1.saturating_sub(1);
+    let len = (c2 - leading).max(1);
     // print the current line to stderr
     eprintln!("{:width$} {}", "", "|".blue());
     eprint!("{} ", format!("{:width$}", line_num).blue());
     eprintln!("{} {}", "|".blue(), line);
-    eprint!("{:width$} {} {:leading$}", "", "|".blue(), "");
-    eprintln!("{}", format!("{:^>len$}", "").color(color));
+    eprint!("{:width$} {} {}", "", "|".blue(), " ".repeat(leading));
+    eprintln!("{}", "^".repeat(len).color(color));
     Ok(())
   }
 
@@ -477,7 +478,7 @@ impl Span {
   {
     let mut buf = String::new();
     // get some parameters
-    let width = ((self.end.line + 1) as f32).log10().ceil() as usize;
+    let width = ((self.end.line as usize + 1) as f32).log10().ceil() as usize;
     let width = std::cmp::max(width, 2);
     // write the first line to buffer
     let line_num = self.start.line as usize;
@@ -487,7 +488,7 @@ impl Span {
     write!(buf, "{} ", format!("{:width$}", line_num).blue())?;
     writeln!(buf, "{}   {line}", "|".blue())?;
     write!(buf, "{:width$} {}  ", "", "|".blue())?;
-    writeln!(buf, "{}", format!("{:_>start$}^", "").color(color))?;
+    writeln!(buf, "{}", format!("{}^", "_".repeat(start)).color(color))?;
     // write the middle lines to buffer
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
@@ -518,7 +519,7 @@ impl Span {
     } else {
       write!(buf, "{}", "|".color(color))?;
     }
-    writeln!(buf, "{}", format!("{:_>end$}^", "").color(color))?;
+    writeln!(buf, "{}", format!("{}^", "_".repeat(end)).color(color))?;
     // print buffer to stderr
     eprint!("{buf}");
     Ok(())
-- 
2.43.0


From 0260afebbaa94b3969574f20f8f064631f16b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:09 +0000
Subject: [PATCH 12/16] fix: accept the minimum value of signed types in
 signed_int_literal

---
 src/lexer.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 231179d..dff288f 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -99,6 +99,15 @@ pub fn int_literal<T>(s: &str) -> Option<T>
 where
   T: IntLiteral,
 {
+  let (radix, digits) = split_int_literal(s)?;
+  // convert to integer
+  T::from_str_radix(digits, radix).ok()
+}
+
+/// Splits the given integer literal into its radix and digits.
+///
+/// Returns [`None`] if the string is not a valid integer literal.
+fn split_int_literal(s: &str) -> Option<(u32, &str)> {
   // check if is a valid integer literal
   let mut chars = s.chars();
   let (radix, starts_from) = match (chars.next(), chars.next()) {
@@ -118,8 +127,7 @@ where
   if !chars.all(|c| c.is_digit(radix)) {
     return None;
   }
-  // convert to integer
-  T::from_str_radix(&s[starts_from..], radix).ok()
+  Some((radix, &s[starts_from..]))
 }
 
 /// Parses integer literals with an optional sign from the given string.
@@ -148,10 +156,17 @@ where
   T: IntLiteral,
 {
   let first = s.chars().next()?;
-  if first == '+' || first == '-' {
-    int_literal(&s[1..]).map(|n: T| if first == '-' { n.wrapping_neg() } else { n })
-  } else {
-    int_literal(s)
+  match first {
+    '+' => int_literal(&s[1..]),
+    '-' => {
+      let (radix, digits) = split_int_literal(&s[1..])?;
+      // the magnitude of the minimum value is not representable by itself
+      T::from_str_radix(digits, radix)
+        .map(T::wrapping_neg)
+        .or_else(|_| T::from_str_radix(&format!("-{digits}"), radix))
+        .ok()
+    }
+    _ => int_literal(s),
   }
 }
 
-- 
2.43.0


From 0e7337a2fc6e173bc7647f8c945e0a701eecc632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:21 +0000
Subject: [PATCH 13/16] fix: reject the escape \u{} in literals

---
 src/lexer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index dff288f..ef15247 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -339,14 +339,14 @@ where
           return ParseResult::Error;
         }
         // get hex value
-        let mut hex = 0u32;
+        let mut hex = None;
         for c in iter {
           match c.to_digit(16) {
-            Some(h) => match hex.checked_mul(16) {
-              Some(h16) => hex = h16 + h,
+            Some(h) => match hex.unwrap_or(0u32).checked_mul(16) {
+              Some(h16) => hex = Some(h16 + h),
               None => break,
             },
-            None if c == '}' => match char::from_u32(hex) {
+            None if c == '}' => match hex.and_then(char::from_u32) {
               Some(c) => return ParseResult::Char(c),
               None => break,
             },
-- 
2.43.0


From 0a5e63363aa3e2a8c25aac202878baa9b5268128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 14/16] fix: derived lexers do not read again after the end of
 input

---
 laps_macros/src/tokenize.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 2848f67..2cf44dc 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -365,7 +365,11 @@ impl RegexImpls {
         let mut state = #init_id;
         let mut last_state;
         let mut buf = #buf_def;
-        let mut span = input.peek_with_span()?.1;
+        let (first, mut span) = input.peek_with_span()?;
+        if first.is_none() {
+          // do not read again, more characters may follow
+          return Ok(LexerResult { last_state: state, buf, span, is_eof: true });
+        }
         let is_eof = loop {
           let (c, loc) = input.next_char_loc()?;
           last_state = state;
-- 
2.43.0


From 9439b9467d953f57a8a532a0c2a3cd5bd65b58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 15/16] fix: documentation of token kinds may contain braces

---
 laps_macros/src/token_kind.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laps_macros/src/token_kind.rs b/laps_macros/src/token_kind.rs
index fd7fd0d..066c050 100644
--- a/laps_macros/src/token_kind.rs
+++ b/laps_macros/src/token_kind.rs
@@ -78,7 +78,8 @@ fn gen_display_impl(input: &ItemEnum) -> TokenStream2 {
         if p.ends_with('.') {
           p.pop();
         }
-        p
+        // braces are not placeholders of the format string
+        p.replace('{', "{{").replace('}', "}}")
       },
     );
     arms.extend(match &variant.fields {
-- 
2.43.0


From c987d49c1bc2a6a74ab5b1bcec22460a9c18bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 16/16] fix: accept braces in the prompts of token types

The prompt of an arm of `token_ast!` was part of the format string of the
error message, so that a prompt with braces did not compile.
---
 laps_macros/src/token_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laps_macros/src/token_ast.rs b/laps_macros/src/token_ast.rs
index a4a55b8..a332079 100644
--- a/laps_macros/src/token_ast.rs
+++ b/laps_macros/src/token_ast.rs
@@ -175,7 +175,7 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
           match &token.kind {
             #[allow(unused_parens)]
             #pat #if_guard => std::result::Result::Ok(Self(token)),
-            _ => laps::return_error!(token.span, std::concat!("expected ", #prompt, ", found {}"), token),
+            _ => laps::return_error!(token.span, "expected {}, found {}", #prompt, token),
           }
         },
         None => match if_guard {
-- 
2.43.0

