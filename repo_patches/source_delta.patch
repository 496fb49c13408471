From 8ab3f86c4bb840389c19f6b54d4ee70872ddb37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:35 +0000
Subject: [PATCH 01/33] fix: Constants lexeme must compare the input before
 emitting a token

---
 src/lexeme/constants.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lexeme/constants.rs b/src/lexeme/constants.rs
index 7c03d57..b315e72 100644
--- a/src/lexeme/constants.rs
+++ b/src/lexeme/constants.rs
@@ -52,10 +52,13 @@ where
         _: &mut Vec<Self::State>,
     ) -> Option<Lex<Self::Token>> {
         self.log_enter();
-        let result = self.values.iter().rev().find_map(|(value, token)| {
-            let lex = Lex::new(token.clone(), pointer, pointer + value.len());
-            Some(lex)
-        });
+        let code_part = &code.value[pointer..];
+        let result = self
+            .values
+            .iter()
+            .rev()
+            .find(|(value, _)| value.len() > 0 && code_part.starts_with(value.as_bytes()))
+            .map(|(value, token)| Lex::new(*token, pointer, pointer + value.len()));
         self.log_result(pointer, code, &result);
         result
     }
-- 
2.43.0


From b6079497e8186c4be91ced4529a14ea99fefcc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:35 +0000
Subject: [PATCH 02/33] fix: validating a grammar with a ConstantFieldSet must
 not panic

---
 src/production/terminals/constant_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/production/terminals/constant_field.rs b/src/production/terminals/constant_field.rs
index e188046..b5c8aa2 100644
--- a/src/production/terminals/constant_field.rs
+++ b/src/production/terminals/constant_field.rs
@@ -306,6 +306,6 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for ConstantFieldSet<TN, TL> {
         _: HashMap<&'id str, usize>,
         _: &mut HashSet<&'id str>,
     ) -> Result<(), crate::ImplementationError> {
-        todo!()
+        Ok(())
     }
 }
-- 
2.43.0


From 807d77e1dd5269003b0d6ce100544c19f4e02a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:35 +0000
Subject: [PATCH 03/33] fix: prefix tree lookup must fall back to the longest
 complete match

---
 src/field_tree.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/field_tree.rs b/src/field_tree.rs
index 9297fc7..2c0fa56 100644
--- a/src/field_tree.rs
+++ b/src/field_tree.rs
@@ -34,24 +34,23 @@ impl<TToken: Clone> FieldTree<TToken> {
     pub fn find(&self, code_part: &[u8]) -> Option<(TToken, usize)> {
         let mut current_field = self;
         let mut index = 0;
+        let mut longest_match = current_field.token.as_ref().map(|t| (t, index));
 
-        loop {
-            if code_part.len() > index {
-                match current_field
-                    .children
-                    .binary_search_by_key(&code_part[index], |s| s.0)
-                {
-                    Ok(i) => {
-                        index += 1;
-                        current_field = &current_field.children[i].1;
-                    }
-                    Err(_) => {
-                        break current_field.token.as_ref().map(|t| (t.clone(), index));
+        while code_part.len() > index {
+            match current_field
+                .children
+                .binary_search_by_key(&code_part[index], |s| s.0)
+            {
+                Ok(i) => {
+                    index += 1;
+                    current_field = &current_field.children[i].1;
+                    if let Some(t) = &current_field.token {
+                        longest_match = Some((t, index));
                     }
                 }
-            } else {
-                break current_field.token.as_ref().map(|t| (t.clone(), index));
+                Err(_) => break,
             }
         }
+        longest_match.map(|(t, index)| (t.clone(), index))
     }
 }
-- 
2.43.0


From 2d4f4aec3478fae8d16a45f216c3ad93d0c8703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:35 +0000
Subject: [PATCH 04/33] fix: reject empty punctuation, which made tokenization
 loop forever

---
 src/lexeme/punctuation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lexeme/punctuation.rs b/src/lexeme/punctuation.rs
index 13ff636..4d4768e 100644
--- a/src/lexeme/punctuation.rs
+++ b/src/lexeme/punctuation.rs
@@ -23,6 +23,12 @@ impl<TToken: Debug + Copy, TState> Punctuations<TToken, TState> {
 
     fn add(&mut self, fields: Vec<(&str, TToken)>) -> Result<(), String> {
         for (key, token) in fields {
+            if key.is_empty() {
+                return Err(format!(
+                    "Punctuation for token {:?} should not be an empty string.",
+                    token
+                ));
+            }
             self.field_tree
                 .insert(key.as_bytes(), token)
                 .map_err(|err| {
-- 
2.43.0


From 513920d5fc0c67471d9ebc6d56b265ffb529c285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:35 +0000
Subject: [PATCH 05/33] fix: Position::from must report the column of the end
 of the text

---
 src/position.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index dfc3031..49dcfea 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -11,16 +11,15 @@ impl Position {
 
 impl From<&[u8]> for Position {
     fn from(code: &[u8]) -> Self {
-        let mut pointer: usize = 0;
+        let mut line_start: usize = 0;
         let mut line: usize = 0;
-        for c in code {
+        for (index, c) in code.iter().enumerate() {
             if *c == b'\n' {
                 line += 1;
+                line_start = index + 1;
             }
-            pointer += 1;
         }
-        let s = unsafe { std::str::from_utf8_unchecked(&code[pointer..]) };
-        Position::new(line + 1, s.len() + 1)
+        Position::new(line + 1, code.len() - line_start + 1)
     }
 }
 
-- 
2.43.0


From eb9f20698612157f9eadc2d44268313325a0df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:35 +0000
Subject: [PATCH 06/33] fix: error messages must be valid UTF-8 for multi-byte
 and invalid input

---
 src/cache.rs | 21 +++++++++++----------
 src/code.rs  |  6 ++----
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 38b91a3..3bb241b 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -75,11 +75,8 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
                         if lex_data.token == TL::eof() {
                             writeln!(error_message, "Unexpected end of file.").unwrap();
                         } else {
-                            let s = unsafe {
-                                std::str::from_utf8_unchecked(
-                                    &code.value[lex_data.start..lex_data.end],
-                                )
-                            };
+                            let s =
+                                String::from_utf8_lossy(&code.value[lex_data.start..lex_data.end]);
                             if cfg!(debug_assertions) {
                                 writeln!(
                                     error_message,
@@ -120,13 +117,17 @@ impl<TToken> Cache<usize, TToken> {
                     (self.get_index(), format!("Unexpected end of file."))
                 } else {
                     let failed_index = self.get_index();
+                    let rest = &code.value[failed_index..];
+                    // Quote the whole utf-8 character, or the invalid byte lossily.
+                    let char_len = (1..=rest.len().min(4))
+                        .find(|len| std::str::from_utf8(&rest[..*len]).is_ok())
+                        .unwrap_or(1);
                     (
                         failed_index,
-                        format!("Unexpected '{}'.", unsafe {
-                            std::str::from_utf8_unchecked(
-                                &code.value[failed_index..failed_index + 1],
-                            )
-                        },),
+                        format!(
+                            "Unexpected '{}'.",
+                            String::from_utf8_lossy(&rest[..char_len])
+                        ),
                     )
                 }
             }
diff --git a/src/code.rs b/src/code.rs
index 52a7700..dbf4fb9 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -36,12 +36,10 @@ impl<'c> Code<'c> {
         };
 
         if index == 0 {
-            let s = unsafe { std::str::from_utf8_unchecked(&self.value[..pointer]) };
-            Position::new(1, s.len() + 1)
+            Position::new(1, self.value[..pointer].len() + 1)
         } else {
             let break_point = line_breaks[index - 1] + 1;
-            let s = unsafe { std::str::from_utf8_unchecked(&self.value[break_point..pointer]) };
-            Position::new(index + 1, s.len() + 1)
+            Position::new(index + 1, self.value[break_point..pointer].len() + 1)
         }
     }
 }
-- 
2.43.0


From 1e4f9511345ca41e7cb63ebae79a711667fcf573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:03 +0000
Subject: [PATCH 07/33] fix: tokenized syntax error must point at the first
 unparsed token, not the one after it

---
 src/cache.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 3bb241b..4da2210 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -66,8 +66,7 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
         let pointer = match err {
             ProductionError::Unparsed => {
                 let failed_index = match stream.filtered_index_at(self.max_parsed_point) {
-                    Ok(i) => i + 1,
-                    Err(i) => i,
+                    Ok(i) | Err(i) => i,
                 };
 
                 match stream.get(failed_index) {
-- 
2.43.0


From 58f0b09a954854e06abeafbb0d19484406005a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:27 +0000
Subject: [PATCH 08/33] fix: grammar validation must detect left recursion and
 missing symbols (visited check was inverted)

---
 src/production/mod.rs                     |  1 +
 src/production/non_terminals/concat.rs    |  1 +
 src/production/non_terminals/mod.rs       | 14 ++++++++++----
 src/production/non_terminals/suffixes.rs  |  8 ++++----
 src/production/non_terminals/union.rs     |  1 +
 src/production/wrappers/separated_list.rs |  6 ++----
 6 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index e135b94..d957564 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -280,6 +280,7 @@ struct NTHelper {
     identifier: &'static str,
     nullability: OnceCell<bool>,
     null_hidden: OnceCell<bool>,
+    validated: OnceCell<()>,
     debugger: OnceCell<Log<&'static str>>,
 }
 
diff --git a/src/production/non_terminals/concat.rs b/src/production/non_terminals/concat.rs
index 8f4e7f6..cf79a63 100644
--- a/src/production/non_terminals/concat.rs
+++ b/src/production/non_terminals/concat.rs
@@ -216,6 +216,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
+            self.nt_helper.mark_validated();
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index bbb804b..1dc670e 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -12,7 +12,6 @@ mod union;
 fn build_circular_format(id: &str, connected_set: &HashMap<&str, usize>) -> String {
     let mut first_set_trees: Vec<(&&str, &usize)> = connected_set.iter().collect();
     first_set_trees.sort_by_key(|s| s.1);
-    println!("First set productions:{:?}", first_set_trees);
 
     let mut circular_string: String = String::new();
 
@@ -38,6 +37,7 @@ impl NTHelper {
             identifier,
             nullability: OnceCell::new(),
             null_hidden: OnceCell::new(),
+            validated: OnceCell::new(),
             debugger: OnceCell::new(),
         }
     }
@@ -68,15 +68,21 @@ impl NTHelper {
                 build_circular_format(self.identifier, &connected_set),
             ))
         } else {
-            if visited_prod.insert(self.identifier) {
-                let l = connected_set.len();
-                connected_set.insert(self.identifier, l);
+            // A production which is reached without consuming input has to be explored again until
+            // its own validation is complete, since the cycle may run through the production being explored.
+            let is_first_visit = visited_prod.insert(self.identifier);
+            if self.validated.get().is_some() || (!is_first_visit && connected_set.is_empty()) {
                 Ok(true)
             } else {
+                let l = connected_set.len();
+                connected_set.insert(self.identifier, l);
                 Ok(false)
             }
         }
     }
+    fn mark_validated(&self) {
+        self.validated.get_or_init(|| ());
+    }
     fn assign_debugger(&self, debugger: Log<&'static str>) -> Result<(), String> {
         self.debugger
             .set(debugger)
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 3d5935c..50b3d8d 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -174,7 +174,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         match self.nt_helper.nullability.get() {
             Some(t) => Ok(*t),
             None => {
-                let is_nullable = self.left.is_nullable() && {
+                let is_nullable = self.left.obtain_nullability(visited.clone())? && {
                     let standalone_or_nullable = self.standalone || {
                         let mut is_nullable = false;
                         for (prod, _) in self.get_suffixes() {
@@ -249,15 +249,15 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             }
 
             self.left.validate(connected_set.clone(), visited_prod)?;
-            let mut is_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
+            let is_left_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
             for (prod, _) in self.get_suffixes() {
-                if is_nullable {
+                if is_left_nullable {
                     prod.validate(connected_set.clone(), visited_prod)?;
-                    is_nullable = prod.obtain_nullability(HashMap::new())?;
                 } else {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
+            self.nt_helper.mark_validated();
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index abf7057..0a6bb02 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -210,6 +210,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
             for prod in self.get_productions() {
                 prod.validate(connected_set.clone(), visited_prod)?;
             }
+            self.nt_helper.mark_validated();
         }
         Ok(())
     }
diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index ace2f80..14e8e75 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -139,14 +139,12 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
         visited_prod: &mut HashSet<&'id str>,
     ) -> Result<(), ImplementationError> {
         // vps.push(&self.separator);
+        self.get_production()
+            .validate(connected_sets.clone(), visited_prod)?;
         if self.get_production().obtain_nullability(HashMap::new())? {
-            self.get_production()
-                .validate(connected_sets.clone(), visited_prod)?;
             self.get_separator()
                 .validate(connected_sets, visited_prod)?;
         } else {
-            self.get_production()
-                .validate(connected_sets, visited_prod)?;
             self.get_separator()
                 .validate(HashMap::new(), visited_prod)?;
         }
-- 
2.43.0


From cd1a0718098346feda118079354ec0dd7612e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:27 +0000
Subject: [PATCH 09/33] fix: filtered stream lookups must translate filtered
 positions and has_stream must not be inverted

---
 src/filtered_stream.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index dc2887a..b504905 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -86,8 +86,8 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
             .filtered_stream
             .binary_search_by_key(&code_pointer, |s| self[*s].start)
         {
-            Ok(index) => Ok(&self.original_stream[index]),
-            Err(index) => Err(&self.original_stream[index]),
+            Ok(index) => Ok(&self[self.filtered_stream[index]]),
+            Err(index) => Err(&self[self.filtered_stream[index]]),
         }
     }
     pub fn pointer(&self, filtered_index: FltrPtr) -> usize {
@@ -102,7 +102,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     }
 
     pub fn has_stream(&self, index: FltrPtr) -> bool {
-        self.filtered_stream.len() < index.0
+        index.0 < self.filtered_stream.len()
     }
     pub fn eos_pointer(&self) -> usize {
         self.original_stream[self.original_stream.len() - 1].end
-- 
2.43.0


From 043099eb3f778d0e95622e381a5fa16a5d11c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:27 +0000
Subject: [PATCH 10/33] fix: Structural must continue with the next structural
 token and never move backwards

---
 src/filtered_stream.rs                |  2 +-
 src/production/wrappers/structural.rs | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index b504905..c331073 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -147,7 +147,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     pub fn find_filter_ptr(&self, index: TokenPtr) -> Result<FltrPtr, FltrPtr> {
         match self.filtered_stream.binary_search(&index) {
             Ok(i) => Ok(FltrPtr(i)),
-            Err(i) => Ok(FltrPtr(i)),
+            Err(i) => Err(FltrPtr(i)),
         }
     }
     pub fn last_segment_index(&self, lex_index: &FltrPtr) -> Option<TokenPtr> {
diff --git a/src/production/wrappers/structural.rs b/src/production/wrappers/structural.rs
index e9658f5..7c35295 100644
--- a/src/production/wrappers/structural.rs
+++ b/src/production/wrappers/structural.rs
@@ -112,8 +112,7 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
         self.log_entry();
 
         let next_fltr_ptr = match token_stream.find_filter_ptr(index) {
-            Ok(fp) => fp + 1,
-            Err(fp) => fp,
+            Ok(fp) | Err(fp) => fp,
         };
 
         let parsed_data =
@@ -127,13 +126,13 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
             token_stream[parsed_data.consumed_index].start,
         );
 
-        let last_token_ptr = if parsed_data.consumed_index > FltrPtr::default() {
-            token_stream.get_token_ptr(parsed_data.consumed_index - 1)
+        let next_token_ptr = if parsed_data.consumed_index > next_fltr_ptr {
+            token_stream.get_token_ptr(parsed_data.consumed_index - 1) + 1
         } else {
-            TokenPtr::default()
+            index // Nothing has been consumed.
         };
 
-        Ok(SuccessData::new(last_token_ptr + 1, parsed_data.children))
+        Ok(SuccessData::new(next_token_ptr, parsed_data.children))
     }
 
     fn advance_ptr(
-- 
2.43.0


From 9e3a176d86a10b162f7130159b31315d6873cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:34 +0000
Subject: [PATCH 11/33] fix: non-structural parsing at the start of the stream
 must begin at the first token

---
 src/filtered_stream.rs                    |  7 +++++++
 src/production/non_terminals/suffixes.rs  | 10 +---------
 src/production/non_terminals/union.rs     | 10 +---------
 src/production/wrappers/non_structural.rs |  8 ++------
 4 files changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index c331073..d48b8ae 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -150,6 +150,13 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
             Err(i) => Err(FltrPtr(i)),
         }
     }
+    /// Get the position of the first token after the structural token which precedes the index.
+    pub(crate) fn gap_start(&self, index: FltrPtr) -> TokenPtr {
+        match self.last_segment_index(&index) {
+            Some(token_ptr) => token_ptr + 1,
+            None => TokenPtr::default(),
+        }
+    }
     pub fn last_segment_index(&self, lex_index: &FltrPtr) -> Option<TokenPtr> {
         if lex_index.0 > 0 {
             Some(self.filtered_stream[lex_index.0 - 1])
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 50b3d8d..433edfc 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -291,15 +291,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             }
             Err(_) => {
                 if !is_structural {
-                    let last_token_ptr = if moved_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(moved_ptr - 1)
-                    } else {
-                        TokenPtr::default()
-                    };
-
-                    let current_token_ptr = last_token_ptr + 1;
-
-                    let current_token_lex = &token_stream[current_token_ptr];
+                    let current_token_lex = &token_stream[token_stream.gap_start(moved_ptr)];
 
                     if !current_token_lex.token.is_structural() {
                         if let Ok(p_index) = suffix_first_set
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 0a6bb02..1a4a541 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -239,15 +239,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
             }
             Err(_) => {
                 if !is_structural {
-                    let last_token_ptr = if fltr_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(fltr_ptr - 1)
-                    } else {
-                        TokenPtr::default()
-                    };
-
-                    let current_token_ptr = last_token_ptr + 1;
-
-                    let current_token_lex = &token_stream[current_token_ptr];
+                    let current_token_lex = &token_stream[token_stream.gap_start(fltr_ptr)];
 
                     if !current_token_lex.token.is_structural() {
                         if let Ok(p_i) =
diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index 42ef336..a1002b7 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -97,15 +97,11 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
         #[cfg(debug_assertions)]
         self.log_entry();
 
-        let start_segment = if fltr_ptr > FltrPtr::default() {
-            token_stream.get_token_ptr(fltr_ptr - 1)
-        } else {
-            TokenPtr::default()
-        };
+        let start_segment = token_stream.gap_start(fltr_ptr);
 
         let parsed_data =
             self.get_symbol()
-                .advance_token_ptr(code, start_segment + 1, token_stream, cache)?;
+                .advance_token_ptr(code, start_segment, token_stream, cache)?;
 
         let result = if self.fill_range {
             let end_segment = token_stream.get_token_ptr(fltr_ptr);
-- 
2.43.0


From 59a2bd02711e58c85487e1b9d0efb58038b83b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:01 +0000
Subject: [PATCH 12/33] fix: first-token prediction in Union and Suffixes must
 not change ordered choice

Alternatives were skipped when a structural and a non-structural start were both
possible or when they followed a nullable alternative, and an empty alternative
was replaced by a guessed (missing or NULL) node instead of being evaluated.
---
 src/production/mod.rs                    |  12 +-
 src/production/non_terminals/mod.rs      |  88 +++++++-
 src/production/non_terminals/suffixes.rs | 245 ++++++-----------------
 src/production/non_terminals/union.rs    | 180 +++++------------
 4 files changed, 213 insertions(+), 312 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index d957564..70ec6bf 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -276,6 +276,13 @@ pub struct EOFProd<TN: NodeImpl = u8, TL = i8> {
     _token: PhantomData<TL>,
 }
 
+/// Alternatives to be tried for the token which comes next, in their declared order.
+struct FirstSet<TL> {
+    is_structural: bool,           // All tokens of the first set are structural
+    tokens: Vec<(TL, Vec<usize>)>, // Sorted tokens and the alternatives which can start with it, including the nullable ones.
+    nullables: Vec<usize>,         // Alternatives for all other tokens.
+}
+
 struct NTHelper {
     identifier: &'static str,
     nullability: OnceCell<bool>,
@@ -442,7 +449,7 @@ pub struct Concat<TN: NodeImpl = u8, TL: TokenImpl = i8> {
 pub struct Union<TN: NodeImpl = u8, TL: TokenImpl = i8> {
     symbols: OnceCell<Vec<Rc<dyn IProduction<Node = TN, Token = TL>>>>,
     nt_helper: NTHelper,
-    first_set: OnceCell<(bool, Vec<(TL, Vec<usize>)>)>,
+    first_set: OnceCell<FirstSet<TL>>,
 }
 
 pub type TSuffixMap<TN, TL> = (Rc<dyn IProduction<Node = TN, Token = TL>>, TN);
@@ -553,8 +560,7 @@ pub struct Suffixes<TP: IProduction> {
     standalone: bool,
     suffixes: OnceCell<Vec<TSuffixMap<TP::Node, TP::Token>>>,
     nt_helper: NTHelper,
-    suffix_first_set: OnceCell<(bool, Vec<(TP::Token, Vec<usize>)>)>,
-    null_suffix_index: OnceCell<Option<usize>>,
+    suffix_first_set: OnceCell<FirstSet<TP::Token>>,
 }
 
 /// An utility to parse a terminal or non-terminal symbols one or multiple times.
diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index 1dc670e..684bfe2 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -1,7 +1,8 @@
-use super::{NTHelper, ProductionLogger};
-use crate::{ImplementationError, Log};
+use super::{FirstSet, NTHelper, ProductionLogger};
+use crate::{FltrPtr, IProduction, ImplementationError, Log, TokenImpl, TokenPtr, TokenStream};
 use once_cell::unsync::OnceCell;
 use std::{
+    borrow::Cow,
     collections::{HashMap, HashSet},
     fmt::Write,
 };
@@ -31,6 +32,89 @@ fn build_circular_format(id: &str, connected_set: &HashMap<&str, usize>) -> Stri
     }
 }
 
+impl<TL: TokenImpl> FirstSet<TL> {
+    fn new<'p, P: IProduction<Token = TL> + ?Sized + 'p>(
+        productions: impl Iterator<Item = &'p P>,
+    ) -> Self {
+        let mut tokens: HashMap<TL, Vec<usize>> = HashMap::new();
+        let mut nullables: Vec<usize> = Vec::new();
+
+        for (index, prod) in productions.enumerate() {
+            let mut child_set = HashSet::new();
+            prod.impl_first_set(&mut child_set);
+
+            for t in child_set {
+                tokens
+                    .entry(t)
+                    .or_insert_with(|| nullables.clone())
+                    .push(index);
+            }
+            if prod.is_nullable() {
+                for v in tokens.values_mut() {
+                    if v.last() != Some(&index) {
+                        v.push(index);
+                    }
+                }
+                nullables.push(index);
+            }
+        }
+
+        let mut tokens: Vec<(TL, Vec<usize>)> = tokens.into_iter().collect();
+        tokens.sort_by_key(|(t, _)| *t);
+
+        Self {
+            is_structural: tokens.iter().all(|(t, _)| t.is_structural()),
+            tokens,
+            nullables,
+        }
+    }
+
+    fn alternatives_of(&self, token: &TL) -> &[usize] {
+        match self.tokens.binary_search_by_key(token, |(t, _)| *t) {
+            Ok(index) => &self.tokens[index].1,
+            Err(_) => &self.nullables,
+        }
+    }
+
+    fn alternatives_of_any(&self, tokens: &[&TL]) -> Cow<'_, [usize]> {
+        let mut alternatives: Vec<usize> = tokens
+            .iter()
+            .flat_map(|token| self.alternatives_of(token))
+            .copied()
+            .collect();
+        alternatives.sort();
+        alternatives.dedup();
+        Cow::Owned(alternatives)
+    }
+
+    /// Alternatives at a structural position. The next structural token decides, as well as the
+    /// non-structural token before it if the production can start with a non-structural token.
+    fn at_fltr_ptr(&self, fltr_ptr: FltrPtr, stream: &TokenStream<TL>) -> Cow<'_, [usize]> {
+        let token = &stream[fltr_ptr].token;
+        let gap_token = &stream[stream.gap_start(fltr_ptr)].token;
+        if self.is_structural || gap_token.is_structural() {
+            Cow::Borrowed(self.alternatives_of(token))
+        } else {
+            self.alternatives_of_any(&[token, gap_token])
+        }
+    }
+
+    /// Alternatives at a raw position. The token itself decides, as well as the structural position
+    /// which follows since the production can switch back to the structural stream.
+    fn at_token_ptr(&self, token_ptr: TokenPtr, stream: &TokenStream<TL>) -> Cow<'_, [usize]> {
+        let token = &stream[token_ptr].token;
+        if self.is_structural && token.is_structural() {
+            Cow::Borrowed(self.alternatives_of(token))
+        } else {
+            let fltr_ptr = match stream.find_filter_ptr(token_ptr) {
+                Ok(fltr_ptr) | Err(fltr_ptr) => fltr_ptr,
+            };
+            let gap_token = &stream[stream.gap_start(fltr_ptr)].token;
+            self.alternatives_of_any(&[token, &stream[fltr_ptr].token, gap_token])
+        }
+    }
+}
+
 impl NTHelper {
     fn new(identifier: &'static str) -> Self {
         Self {
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 433edfc..5d26391 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -1,11 +1,11 @@
-use crate::production::NTHelper;
+use crate::production::{FirstSet, NTHelper};
 #[cfg(debug_assertions)]
 use crate::production::ProductionLogger;
 use crate::{
     production::{Suffixes, TSuffixMap},
     Code,
     ASTNode, Cache, FltrPtr, IProduction, ImplementationError, ParsedResult, ProductionError,
-    SuccessData, TokenImpl, TokenPtr, TokenStream,
+    SuccessData, TokenPtr, TokenStream,
 };
 
 use once_cell::unsync::OnceCell;
@@ -28,7 +28,6 @@ impl<TP: IProduction> Suffixes<TP> {
             standalone,
             nt_helper: NTHelper::new(identifier),
             suffix_first_set: OnceCell::new(),
-            null_suffix_index: OnceCell::new(),
         }
     }
 
@@ -54,7 +53,6 @@ impl<TP: IProduction> Suffixes<TP> {
             standalone,
             nt_helper: NTHelper::new(identifier),
             suffix_first_set: OnceCell::new(),
-            null_suffix_index: OnceCell::new(),
         }
     }
 
@@ -94,48 +92,9 @@ impl<TP: IProduction> Suffixes<TP> {
         })
     }
 
-    fn obtain_first_null_suffix(&self) -> &Option<usize> {
-        self.null_suffix_index.get_or_init(|| {
-            self.get_suffixes()
-                .iter()
-                .position(|(prod, _)| prod.is_nullable())
-        })
-    }
-
-    fn obtain_suffixes_set(&self) -> &(bool, Vec<(TP::Token, Vec<usize>)>) {
-        self.suffix_first_set.get_or_init(|| {
-            let mut children_set: HashMap<TP::Token, Vec<usize>> = HashMap::new();
-            for (index, (prod, _)) in self.get_suffixes().iter().enumerate() {
-                let mut child_set = HashSet::new();
-                prod.impl_first_set(&mut child_set);
-                for t in child_set {
-                    let v = children_set.entry(t).or_insert_with(|| Vec::new());
-                    v.push(index);
-                }
-                if prod.is_nullable() {
-                    for (_, v) in &mut children_set {
-                        if v.last().unwrap() != &index {
-                            v.push(index);
-                        }
-                    }
-                    break;
-                }
-            }
-
-            #[cfg(debug_assertions)]
-            for (_, v) in &children_set {
-                let mut s = HashSet::new();
-                for k in v {
-                    if !s.insert(k) {
-                        panic!("Bug! Children set is not unique.")
-                    }
-                }
-            }
-
-            let mut v: Vec<(TP::Token, Vec<usize>)> = children_set.into_iter().collect();
-            v.sort_by_key(|(t, _)| *t);
-            (v.iter().all(|(t, _)| t.is_structural()), v)
-        })
+    fn obtain_suffixes_set(&self) -> &FirstSet<TP::Token> {
+        self.suffix_first_set
+            .get_or_init(|| FirstSet::new(self.get_suffixes().iter().map(|(p, _)| p.as_ref())))
     }
 }
 
@@ -272,102 +231,51 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         #[cfg(debug_assertions)]
         self.nt_helper.log_entry();
 
-        let mut left_success_data =
+        let left_success_data =
             self.left
                 .advance_fltr_ptr(code, fltr_ptr, token_stream, cache)?;
         // let mut parsed_children: Vec<Rc<AST<TProd::Token>>> = Vec::new();
 
         let suffixes = self.get_suffixes();
 
-        let (is_structural, suffix_first_set) = self.obtain_suffixes_set();
-
         let moved_ptr: FltrPtr = left_success_data.consumed_index;
-        let immediate_lex = &token_stream[moved_ptr];
-
-        let mut production_set_index: Option<usize> = None;
-        match suffix_first_set.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            Ok(p_index) => {
-                production_set_index = Some(p_index);
-            }
-            Err(_) => {
-                if !is_structural {
-                    let current_token_lex = &token_stream[token_stream.gap_start(moved_ptr)];
-
-                    if !current_token_lex.token.is_structural() {
-                        if let Ok(p_index) = suffix_first_set
-                            .binary_search_by_key(&current_token_lex.token, |(t, _)| *t)
-                        {
-                            production_set_index = Some(p_index);
-                        }
-                    }
-                }
-            }
-        }
+        let alternatives = self
+            .obtain_suffixes_set()
+            .at_fltr_ptr(moved_ptr, token_stream);
+
+        for (prod, node_value) in alternatives.iter().map(|j| &suffixes[*j]) {
+            match prod.advance_fltr_ptr(code, moved_ptr, token_stream, cache) {
+                Ok(data) => {
+                    let mut children = left_success_data.children;
+                    children.extend(data.children);
+                    let ast = ASTNode::<TP::Node>::new(
+                        node_value.clone(),
+                        token_stream.pointer(fltr_ptr),
+                        token_stream.pointer(data.consumed_index),
+                        Some((
+                            token_stream.get_token_ptr(fltr_ptr),
+                            token_stream.get_token_ptr(data.consumed_index),
+                        )),
+                        children,
+                    );
 
-        match production_set_index {
-            Some(p_index) => {
-                for (prod, node_value) in suffix_first_set[p_index].1.iter().map(|j| &suffixes[*j])
-                {
-                    match prod.advance_fltr_ptr(
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
                         code,
-                        left_success_data.consumed_index,
-                        token_stream,
-                        cache,
-                    ) {
-                        Ok(data) => {
-                            let mut children = left_success_data.children;
-                            children.extend(data.children);
-                            let ast = ASTNode::<TP::Node>::new(
-                                node_value.clone(),
-                                token_stream.pointer(fltr_ptr),
-                                token_stream.pointer(data.consumed_index),
-                                Some((
-                                    token_stream.get_token_ptr(fltr_ptr),
-                                    token_stream.get_token_ptr(data.consumed_index),
-                                )),
-                                children,
-                            );
-
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_success(
-                                code,
-                                token_stream[fltr_ptr].start,
-                                token_stream[data.consumed_index].end,
-                            );
-
-                            return Ok(SuccessData::tree(data.consumed_index, ast));
-                        }
-                        Err(err) => {
-                            if err.is_invalid() {
-                                #[cfg(debug_assertions)]
-                                self.nt_helper
-                                    .log_error(code, token_stream[moved_ptr].start, &err);
+                        token_stream[fltr_ptr].start,
+                        token_stream[data.consumed_index].end,
+                    );
 
-                                return Err(err);
-                            }
-                        }
-                    }
+                    return Ok(SuccessData::tree(data.consumed_index, ast));
                 }
-            }
-            None => {
-                if let Some(i) = self.obtain_first_null_suffix() {
-                    let left_bound = token_stream.get_token_ptr(fltr_ptr);
-                    let right_bound = token_stream.get_token_ptr(left_success_data.consumed_index);
-
-                    if !suffixes[*i].0.is_nullable_n_hidden() {
-                        left_success_data.children.push(ASTNode::null(
-                            token_stream[left_success_data.consumed_index].start,
-                            Some(right_bound),
-                        ))
+                Err(err) => {
+                    if err.is_invalid() {
+                        #[cfg(debug_assertions)]
+                        self.nt_helper
+                            .log_error(code, token_stream[moved_ptr].start, &err);
+
+                        return Err(err);
                     }
-                    let tree = ASTNode::new(
-                        suffixes[*i].1.clone(),
-                        token_stream[fltr_ptr].start,
-                        token_stream[left_success_data.consumed_index].start,
-                        Some((left_bound, right_bound)),
-                        left_success_data.children,
-                    );
-                    return Ok(SuccessData::tree(left_success_data.consumed_index, tree));
                 }
             }
         }
@@ -407,59 +315,38 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         let moved_ptr: TokenPtr = left_success_data.consumed_index;
         let suffixes = self.get_suffixes();
 
-        let (_, suffix_first_set) = self.obtain_suffixes_set();
-
-        let immediate_lex = &stream[moved_ptr];
-
-        if let Ok(i) = suffix_first_set.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            for (prod, node_value) in suffix_first_set[i].1.iter().map(|j| &suffixes[*j]) {
-                match prod.advance_token_ptr(code, moved_ptr, stream, cache) {
-                    Ok(success_data) => {
-                        left_success_data.consumed_index = success_data.consumed_index;
-                        left_success_data.children.extend(success_data.children);
-                        let ast = ASTNode::<TP::Node>::new(
-                            node_value.clone(),
-                            stream[index].start,
-                            stream[success_data.consumed_index].start,
-                            Some((index, success_data.consumed_index)),
-                            left_success_data.children,
-                        );
-
-                        let data = SuccessData::tree(success_data.consumed_index, ast);
+        let alternatives = self.obtain_suffixes_set().at_token_ptr(moved_ptr, stream);
+
+        for (prod, node_value) in alternatives.iter().map(|j| &suffixes[*j]) {
+            match prod.advance_token_ptr(code, moved_ptr, stream, cache) {
+                Ok(success_data) => {
+                    left_success_data.consumed_index = success_data.consumed_index;
+                    left_success_data.children.extend(success_data.children);
+                    let ast = ASTNode::<TP::Node>::new(
+                        node_value.clone(),
+                        stream[index].start,
+                        stream[success_data.consumed_index].start,
+                        Some((index, success_data.consumed_index)),
+                        left_success_data.children,
+                    );
+
+                    let data = SuccessData::tree(success_data.consumed_index, ast);
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
+                        code,
+                        stream[index].start,
+                        stream[data.consumed_index].start,
+                    );
+                    return Ok(data);
+                }
+                Err(err) => {
+                    if err.is_invalid() {
                         #[cfg(debug_assertions)]
-                        self.nt_helper.log_success(
-                            code,
-                            stream[index].start,
-                            stream[data.consumed_index].start,
-                        );
-                        return Ok(data);
-                    }
-                    Err(err) => {
-                        if err.is_invalid() {
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_error(code, stream[index].start, &err);
-                            return Err(err);
-                        }
+                        self.nt_helper.log_error(code, stream[index].start, &err);
+                        return Err(err);
                     }
                 }
             }
-        } else {
-            if let Some(i) = self.obtain_first_null_suffix() {
-                if !suffixes[*i].0.is_nullable_n_hidden() {
-                    left_success_data.children.push(ASTNode::null(
-                        stream[left_success_data.consumed_index].start,
-                        Some(left_success_data.consumed_index),
-                    ))
-                }
-                let tree = ASTNode::new(
-                    suffixes[*i].1.clone(),
-                    stream[index].start,
-                    stream[left_success_data.consumed_index].start,
-                    Some((index, left_success_data.consumed_index)),
-                    left_success_data.children,
-                );
-                return Ok(SuccessData::tree(left_success_data.consumed_index, tree));
-            }
         }
         if self.standalone {
             #[cfg(debug_assertions)]
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 1a4a541..88f4656 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -1,9 +1,9 @@
-use crate::production::NTHelper;
+use crate::production::{FirstSet, NTHelper};
 #[cfg(debug_assertions)]
 use crate::production::ProductionLogger;
 use crate::{
-    production::Union, Code, ASTNode, Cache, FltrPtr, IProduction, ImplementationError,
-    NodeImpl, ParsedResult, ProductionError, SuccessData, TokenImpl, TokenPtr, TokenStream,
+    production::Union, Code, Cache, FltrPtr, IProduction, ImplementationError,
+    NodeImpl, ParsedResult, ProductionError, TokenImpl, TokenPtr, TokenStream,
 };
 
 use once_cell::unsync::OnceCell;
@@ -77,41 +77,9 @@ impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
         })
     }
 
-    fn obtain_first_set(&self) -> &(bool, Vec<(TL, Vec<usize>)>) {
-        self.first_set.get_or_init(|| {
-            let mut children_set: HashMap<TL, Vec<usize>> = HashMap::new();
-            for (index, prod) in self.get_productions().iter().enumerate() {
-                let mut child_set = HashSet::new();
-                prod.impl_first_set(&mut child_set);
-
-                for t in child_set {
-                    let indexes = children_set.entry(t).or_insert_with(|| Vec::new());
-                    indexes.push(index);
-                }
-                if prod.is_nullable() {
-                    for (_, v) in &mut children_set {
-                        if v.last().unwrap() != &index {
-                            v.push(index);
-                        }
-                    }
-                    break; // We do not want to visit more production if we find nullable production.
-                }
-            }
-
-            #[cfg(debug_assertions)]
-            for (_, v) in &children_set {
-                let mut s = HashSet::new();
-                for k in v {
-                    if !s.insert(k) {
-                        panic!("Bug! Children set is not unique.")
-                    }
-                }
-            }
-
-            let mut v: Vec<(TL, Vec<usize>)> = children_set.into_iter().collect();
-            v.sort_by_key(|(t, _)| *t);
-            (v.iter().all(|(t, _)| t.is_structural()), v)
-        })
+    fn obtain_first_set(&self) -> &FirstSet<TL> {
+        self.first_set
+            .get_or_init(|| FirstSet::new(self.get_productions().iter().map(|p| p.as_ref())))
     }
 }
 
@@ -225,69 +193,33 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
         #[cfg(debug_assertions)]
         self.nt_helper.log_entry();
 
-        let immediate_lex = &token_stream[fltr_ptr];
-
-        let (is_structural, first_sets) = self.obtain_first_set();
-
         let productions = self.get_productions();
+        let alternatives = self
+            .obtain_first_set()
+            .at_fltr_ptr(fltr_ptr, token_stream);
+
+        for prod in alternatives.iter().map(|j| &productions[*j]) {
+            match prod.advance_fltr_ptr(code, fltr_ptr, token_stream, cache) {
+                Ok(s) => {
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
+                        code,
+                        token_stream[fltr_ptr].start,
+                        token_stream[s.consumed_index].start,
+                    );
 
-        let mut production_set_index: Option<usize> = None;
-
-        match first_sets.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            Ok(p_index) => {
-                production_set_index = Some(p_index);
-            }
-            Err(_) => {
-                if !is_structural {
-                    let current_token_lex = &token_stream[token_stream.gap_start(fltr_ptr)];
-
-                    if !current_token_lex.token.is_structural() {
-                        if let Ok(p_i) =
-                            first_sets.binary_search_by_key(&current_token_lex.token, |(t, _)| *t)
-                        {
-                            production_set_index = Some(p_i);
-                        }
-                    }
+                    return Ok(s);
                 }
-            }
-        }
-        match production_set_index {
-            Some(p_index) => {
-                for prod in first_sets[p_index].1.iter().map(|j| &productions[*j]) {
-                    match prod.advance_fltr_ptr(code, fltr_ptr, token_stream, cache) {
-                        Ok(s) => {
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_success(
-                                code,
-                                token_stream[fltr_ptr].start,
-                                token_stream[s.consumed_index].start,
-                            );
-
-                            return Ok(s);
-                        }
-                        Err(err) => {
-                            if err.is_invalid() {
-                                #[cfg(debug_assertions)]
-                                self.nt_helper
-                                    .log_error(code, token_stream[fltr_ptr].start, &err);
-                                // println!("Returning validation Err:{:?}", err);
-                                return Err(err);
-                            }
-                        }
+                Err(err) => {
+                    if err.is_invalid() {
+                        #[cfg(debug_assertions)]
+                        self.nt_helper
+                            .log_error(code, token_stream[fltr_ptr].start, &err);
+                        // println!("Returning validation Err:{:?}", err);
+                        return Err(err);
                     }
                 }
             }
-            None => {
-                if self.is_nullable_n_hidden() {
-                    return Ok(SuccessData::hidden(fltr_ptr));
-                } else if self.is_nullable() {
-                    let tree = ASTNode::null(
-                        token_stream[fltr_ptr].start,
-                        Some(token_stream.get_token_ptr(fltr_ptr)),
-                    );
-                    return Ok(SuccessData::tree(fltr_ptr, tree));
-                }
-            }
         }
 
         #[cfg(debug_assertions)]
@@ -310,48 +242,40 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
         #[cfg(debug_assertions)]
         self.nt_helper.log_entry();
 
+        #[cfg(debug_assertions)]
         let immediate_lex = &token_stream[index];
 
-        let (_, first_sets) = self.obtain_first_set();
+        let productions = self.get_productions();
+        let alternatives = self.obtain_first_set().at_token_ptr(index, token_stream);
+
+        for prod in alternatives.iter().map(|j| &productions[*j]) {
+            match prod.advance_token_ptr(code, index, token_stream, cache) {
+                Ok(s) => {
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
+                        code,
+                        immediate_lex.start,
+                        token_stream[s.consumed_index].start,
+                    );
 
-        if let Ok(p_index) = first_sets.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            let productions = self.get_productions();
-            for prod in first_sets[p_index].1.iter().map(|j| &productions[*j]) {
-                match prod.advance_token_ptr(code, index, token_stream, cache) {
-                    Ok(s) => {
+                    return Ok(s);
+                }
+                Err(err) => {
+                    if err.is_invalid() {
                         #[cfg(debug_assertions)]
-                        self.nt_helper.log_success(
-                            code,
-                            immediate_lex.start,
-                            token_stream[s.consumed_index].start,
-                        );
-
-                        return Ok(s);
-                    }
-                    Err(err) => {
-                        if err.is_invalid() {
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_error(code, immediate_lex.start, &err);
-                            // println!("Returning validation Err:{:?}", err);
-                            return Err(err);
-                        }
+                        self.nt_helper.log_error(code, immediate_lex.start, &err);
+                        // println!("Returning validation Err:{:?}", err);
+                        return Err(err);
                     }
                 }
             }
         }
 
-        if self.is_nullable_n_hidden() {
-            Ok(SuccessData::hidden(index))
-        } else if self.is_nullable() {
-            let tree = ASTNode::null(token_stream[index].start, Some(index));
-            Ok(SuccessData::tree(index, tree))
-        } else {
-            #[cfg(debug_assertions)]
-            self.nt_helper
-                .log_error(code, token_stream[index].start, &ProductionError::Unparsed);
-
-            Err(ProductionError::Unparsed)
-        }
+        #[cfg(debug_assertions)]
+        self.nt_helper
+            .log_error(code, token_stream[index].start, &ProductionError::Unparsed);
+
+        Err(ProductionError::Unparsed)
     }
 
     fn advance_ptr(
-- 
2.43.0


From 043451c23fb9f2289c1a2bf2ad223f6675b96f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:01 +0000
Subject: [PATCH 13/33] fix: a separated list of a nullable production is
 nullable without its separator

---
 src/production/wrappers/separated_list.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index 14e8e75..2f598e0 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -262,19 +262,18 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
     }
 
     fn is_nullable(&self) -> bool {
-        self.production.is_nullable() && self.separator.is_nullable()
+        self.production.is_nullable()
     }
 
     fn is_nullable_n_hidden(&self) -> bool {
-        self.production.is_nullable_n_hidden() && self.separator.is_nullable_n_hidden()
+        self.production.is_nullable_n_hidden()
     }
 
     fn obtain_nullability<'id>(
         &'id self,
         visited: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(self.production.obtain_nullability(visited.clone())?
-            && self.separator.obtain_nullability(visited)?)
+        self.production.obtain_nullability(visited)
     }
 
     fn impl_first_set(&self, first_set: &mut HashSet<Self::Token>) {
-- 
2.43.0


From 645a36066b2cbba5dff80ed92529d70d04fb2782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:01 +0000
Subject: [PATCH 14/33] fix: a separated list must stop when separator and
 production match nothing

---
 src/production/wrappers/separated_list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index 2f598e0..ca585ef 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -38,7 +38,7 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
     }
 
     fn consume<
-        T: Copy,
+        T: Copy + PartialEq,
         TCache: Copy + Default + Eq + Hash + Ord,
         P: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
         S: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
@@ -60,6 +60,9 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
                         Ok(next_success_data) => {
                             children.extend(separator_success_data.children);
                             children.extend(next_success_data.children);
+                            if moved_ptr == next_success_data.consumed_index {
+                                break Ok(SuccessData::new(moved_ptr, children));
+                            }
                             moved_ptr = next_success_data.consumed_index;
                         }
                         Err(err) => {
-- 
2.43.0


From 8d4e0bcc7449b44dfd7ad02ca52aab438e871ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:01 +0000
Subject: [PATCH 15/33] fix: a lookahead of a nullable production must be
 nullable, as validation already assumes

---
 src/production/wrappers/look_ahead.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/production/wrappers/look_ahead.rs b/src/production/wrappers/look_ahead.rs
index b6b9563..f8c637b 100644
--- a/src/production/wrappers/look_ahead.rs
+++ b/src/production/wrappers/look_ahead.rs
@@ -55,7 +55,7 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
 
     #[inline]
     fn is_nullable(&self) -> bool {
-        false
+        self.get_production().is_nullable()
     }
 
     fn impl_grammar(
-- 
2.43.0


From 4f54dcabacd43cf9bda2506158f64126f17b74d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:02 +0000
Subject: [PATCH 16/33] fix: an unbalanced closing token must be a tokenization
 error instead of a panic

---
 src/lexeme/mixin.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/lexeme/mixin.rs b/src/lexeme/mixin.rs
index 9a37e85..899451e 100644
--- a/src/lexeme/mixin.rs
+++ b/src/lexeme/mixin.rs
@@ -8,20 +8,10 @@ fn perform_state_action<TToken, TState: PartialEq + Debug>(
     lexical_data: Lex<TToken>,
     action: Action<TState>,
     state_stack: &mut Vec<TState>,
-    pointer: usize,
-    code: &Code,
 ) -> Option<Lex<TToken>> {
     let shall_discard = match action {
-        Action::Pop { discard } => match state_stack.pop() {
-            Some(_) => discard,
-            None => {
-                panic!(
-                    "Failed to remove a state from empty state stack at {} ({}).",
-                    pointer,
-                    code.obtain_position(pointer)
-                )
-            }
-        },
+        // There is no state to leave for an unbalanced input, so that the lexeme does not match.
+        Action::Pop { discard } => state_stack.pop().map_or(true, |_| discard),
         Action::Append { state, discard } => {
             state_stack.push(state);
             discard
@@ -97,8 +87,6 @@ impl<TL: ILexeme> ILexeme for StateMixin<TL> {
                         lexical_data,
                         self.actions[index].1,
                         info,
-                        pointer,
-                        code,
                     ),
                     Err(_) => Some(lexical_data),
                 }
@@ -167,7 +155,7 @@ impl<TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Action
             Some(lexical_data) => {
                 let action = (self.thunk_action)(&lexical_data, &code.value, tokenized_stream);
 
-                perform_state_action(lexical_data, action, state_stack, pointer, code)
+                perform_state_action(lexical_data, action, state_stack)
             }
             None => None,
         }
-- 
2.43.0


From 8fae584930355df9cbf59c6a8e386bfd35d36f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:02 +0000
Subject: [PATCH 17/33] fix: grammar text must show the trailing separator for
 inclusive separated lists

---
 src/production/wrappers/separated_list.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index ca585ef..dcb5e11 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -121,7 +121,7 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Displ
                     p = self.get_production(),
                     s = self.get_separator()
                 )?;
-                if !self.inclusive {
+                if self.inclusive {
                     write!(f, " ({})?", self.get_separator())?;
                 }
                 Ok(())
@@ -172,8 +172,8 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
                         s = self.get_separator()
                     )?;
 
-                    if !self.inclusive {
-                        writeln!(writer, " ({})?", self.get_separator()).unwrap();
+                    if self.inclusive {
+                        writeln!(writer, " ({})?", self.get_separator())?;
                     } else {
                         writeln!(writer, "")?;
                     }
-- 
2.43.0


From 728295d690829d268df22d07a14964477ccdd587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:02 +0000
Subject: [PATCH 18/33] fix: grammar text must include the rules reached
 through Union and Suffixes

---
 src/production/non_terminals/suffixes.rs | 7 +++++++
 src/production/non_terminals/union.rs    | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 5d26391..5fdd042 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -184,6 +184,13 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             if self.standalone {
                 writeln!(writer, "{:>6} {}", "|", self.left)?;
             }
+            writeln!(writer, "{:>6}", ";")?;
+            writeln!(writer, "")?;
+
+            self.left.impl_grammar(writer, visited)?;
+            for (prod, _) in self.get_suffixes() {
+                prod.impl_grammar(writer, visited)?;
+            }
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 88f4656..f8f394c 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -153,6 +153,12 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
                     writeln!(writer, "{:>6} {}", "|", prod)?;
                 }
             }
+            writeln!(writer, "{:>6}", ";")?;
+            writeln!(writer, "")?;
+
+            for prod in self.get_productions() {
+                prod.impl_grammar(writer, visited)?;
+            }
         }
         Ok(())
     }
-- 
2.43.0


From bcec8a67f50442ff88182472ae1bb112323e0286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:02 +0000
Subject: [PATCH 19/33] fix: grammar text of a keyword mapper must not depend
 on hash order

---
 src/lexeme/mapper.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lexeme/mapper.rs b/src/lexeme/mapper.rs
index a70e1d7..b512251 100644
--- a/src/lexeme/mapper.rs
+++ b/src/lexeme/mapper.rs
@@ -73,9 +73,11 @@ impl<TLexer: ILexeme> ILexeme for Mapper<TLexer> {
         })
     }
     fn get_grammar_field(&self) -> Vec<(<TLexer as ILexeme>::Token, String)> {
-        let mut v: Vec<(TLexer::Token, String)> = self
-            .fields
-            .iter()
+        let mut fields: Vec<(&Vec<u8>, &TLexer::Token)> = self.fields.iter().collect();
+        fields.sort();
+
+        let mut v: Vec<(TLexer::Token, String)> = fields
+            .into_iter()
             .map(|(s, t)| {
                 let s = unsafe { std::str::from_utf8_unchecked(s) };
 
-- 
2.43.0


From 1cdab07978038647fde9fd1619d06f4951ae93c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:13 +0000
Subject: [PATCH 20/33] fix: end of file consumes nothing, so that left
 recursion behind it must be rejected

---
 src/production/terminals/eof.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/production/terminals/eof.rs b/src/production/terminals/eof.rs
index fa07f70..37d716b 100644
--- a/src/production/terminals/eof.rs
+++ b/src/production/terminals/eof.rs
@@ -46,14 +46,14 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for EOFProd<TN, TL> {
     type Token = TL;
 
     fn is_nullable(&self) -> bool {
-        false
+        true // Matches the end of the input without consuming.
     }
 
     fn obtain_nullability<'id>(
         &'id self,
         _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(false)
+        Ok(true)
     }
 
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TL>) {
-- 
2.43.0


From d3b5cb6effc8d844e649be3d490e5bb825f88f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:37 +0000
Subject: [PATCH 21/33] fix: a lookahead consumes nothing, so that left
 recursion behind it must be rejected

---
 src/production/wrappers/look_ahead.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/production/wrappers/look_ahead.rs b/src/production/wrappers/look_ahead.rs
index f8c637b..a61509f 100644
--- a/src/production/wrappers/look_ahead.rs
+++ b/src/production/wrappers/look_ahead.rs
@@ -55,7 +55,7 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
 
     #[inline]
     fn is_nullable(&self) -> bool {
-        self.get_production().is_nullable()
+        true // A lookahead never consumes.
     }
 
     fn impl_grammar(
@@ -68,9 +68,9 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
 
     fn obtain_nullability<'id>(
         &'id self,
-        visited: HashMap<&'id str, usize>,
+        _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        self.production.obtain_nullability(visited)
+        Ok(true)
     }
 
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TProd::Token>) {
-- 
2.43.0


From 50cf9c5dfc6676efd702dce5d054734ca70b4386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:03 +0000
Subject: [PATCH 22/33] fix: a non-structural production consumes no structural
 token, so that left recursion behind it must be rejected

---
 src/production/wrappers/non_structural.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index a1002b7..13e9459 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -54,7 +54,7 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
 
     #[inline]
     fn is_nullable(&self) -> bool {
-        self.get_symbol().is_nullable()
+        true // Never consumes structural tokens.
     }
 
     fn impl_grammar(
@@ -67,9 +67,9 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
 
     fn obtain_nullability<'id>(
         &'id self,
-        visited: HashMap<&'id str, usize>,
+        _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        self.production.obtain_nullability(visited)
+        Ok(true)
     }
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TProd::Token>) {
         self.production.impl_first_set(first_set)
-- 
2.43.0


From cb31860aeccb520cb4aa9dc37f69e48676759759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 23/33] fix: the empty input must tokenize to the end of file
 token

---
 src/tokenization.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tokenization.rs b/src/tokenization.rs
index cada259..faa916b 100644
--- a/src/tokenization.rs
+++ b/src/tokenization.rs
@@ -64,6 +64,10 @@ impl<TToken: TokenImpl, TState: Copy + Debug + Ord + Eq> ITokenization
             println!("Begin tokenization for state: {:?}", current_state);
         }
 
+        if eof_pointer == 0 {
+            return Ok(vec![Lex::new(TToken::eof(), 0, 0)]);
+        }
+
         loop {
             match current_analyzer
                 .1
@@ -161,6 +165,10 @@ impl<TToken: TokenImpl, TState: Copy + Debug + Default + Ord + Eq> ITokenization
 
         let mut state_stack = Vec::new();
 
+        if eof_pointer == 0 {
+            return Ok(vec![Lex::new(TToken::eof(), 0, 0)]);
+        }
+
         loop {
             match self
                 .lexers
-- 
2.43.0


From 177cdeedcabdff09dad717645011520b70ba8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 24/33] hook: construct cache keys under cfg(lang_pt_verif)

---
 src/cache.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cache.rs b/src/cache.rs
index 4da2210..774a1a1 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -6,6 +6,14 @@ use crate::{
 use std::fmt::Write;
 use std::{collections::HashMap, hash::Hash};
 
+/// Verification hook: cache keys have no other public constructor.
+#[cfg(lang_pt_verif)]
+impl CacheKey {
+    pub fn verif_new(key: usize) -> Self {
+        CacheKey(key)
+    }
+}
+
 impl<TP: Default + Eq + Hash + Ord + Copy, TToken> Cache<TP, TToken> {
     pub fn root() -> Self {
         Self {
-- 
2.43.0


From 194f3a1284ddf37686582cf09988b4ef9c1a856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 25/33] fix: extending a keyword mapper must keep the first
 definition of a repeated keyword

---
 src/lexeme/mapper.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lexeme/mapper.rs b/src/lexeme/mapper.rs
index b512251..fe3907a 100644
--- a/src/lexeme/mapper.rs
+++ b/src/lexeme/mapper.rs
@@ -31,15 +31,13 @@ impl<TS: ILexeme> Mapper<TS> {
 
     pub fn extend_fields(&mut self, fields: Vec<(&str, TS::Token)>) -> Result<(), String> {
         for (keyword, token) in fields {
-            if let Some(token) = self
-                .fields
-                .insert(keyword.bytes().collect::<Vec<u8>>(), token)
-            {
+            if let Some(token) = self.fields.get(keyword.as_bytes()) {
                 return Err(format!(
                     "{:?} is already been used with token {:?}",
                     keyword, token
                 ));
             };
+            self.fields.insert(keyword.bytes().collect(), token);
         }
         Ok(())
     }
-- 
2.43.0


From 90c7839b3b632e58131fe211186c2b5b2b068606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 26/33] fix: validating again after a refusal must give the
 same answer

---
 src/production/mod.rs                    |  2 +-
 src/production/non_terminals/concat.rs   |  2 +-
 src/production/non_terminals/mod.rs      | 10 ++++++----
 src/production/non_terminals/suffixes.rs |  2 +-
 src/production/non_terminals/union.rs    |  2 +-
 5 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index 70ec6bf..996d25c 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -287,7 +287,7 @@ struct NTHelper {
     identifier: &'static str,
     nullability: OnceCell<bool>,
     null_hidden: OnceCell<bool>,
-    validated: OnceCell<()>,
+    validated_id: String, // Marks a completed validation among the visited productions.
     debugger: OnceCell<Log<&'static str>>,
 }
 
diff --git a/src/production/non_terminals/concat.rs b/src/production/non_terminals/concat.rs
index cf79a63..ed44cf6 100644
--- a/src/production/non_terminals/concat.rs
+++ b/src/production/non_terminals/concat.rs
@@ -216,7 +216,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
-            self.nt_helper.mark_validated();
+            self.nt_helper.mark_validated(visited_prod);
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index 684bfe2..3bd7980 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -121,7 +121,7 @@ impl NTHelper {
             identifier,
             nullability: OnceCell::new(),
             null_hidden: OnceCell::new(),
-            validated: OnceCell::new(),
+            validated_id: format!("{} (validated)", identifier),
             debugger: OnceCell::new(),
         }
     }
@@ -155,7 +155,9 @@ impl NTHelper {
             // A production which is reached without consuming input has to be explored again until
             // its own validation is complete, since the cycle may run through the production being explored.
             let is_first_visit = visited_prod.insert(self.identifier);
-            if self.validated.get().is_some() || (!is_first_visit && connected_set.is_empty()) {
+            if visited_prod.contains(self.validated_id.as_str())
+                || (!is_first_visit && connected_set.is_empty())
+            {
                 Ok(true)
             } else {
                 let l = connected_set.len();
@@ -164,8 +166,8 @@ impl NTHelper {
             }
         }
     }
-    fn mark_validated(&self) {
-        self.validated.get_or_init(|| ());
+    fn mark_validated<'id>(&'id self, visited_prod: &mut HashSet<&'id str>) {
+        visited_prod.insert(&self.validated_id);
     }
     fn assign_debugger(&self, debugger: Log<&'static str>) -> Result<(), String> {
         self.debugger
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 5fdd042..5e85ff9 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -223,7 +223,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
-            self.nt_helper.mark_validated();
+            self.nt_helper.mark_validated(visited_prod);
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index f8f394c..2cfc604 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -184,7 +184,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
             for prod in self.get_productions() {
                 prod.validate(connected_set.clone(), visited_prod)?;
             }
-            self.nt_helper.mark_validated();
+            self.nt_helper.mark_validated(visited_prod);
         }
         Ok(())
     }
-- 
2.43.0


From 6ccda39194c25572ccf79e9834a495cb1159f5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 27/33] fix: missing symbols found while determining
 nullability must be an error, not a panic

---
 src/production/non_terminals/concat.rs   | 24 +++++++++++++++---------
 src/production/non_terminals/suffixes.rs | 24 +++++++++++++++---------
 src/production/non_terminals/union.rs    | 24 +++++++++++++++---------
 3 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/src/production/non_terminals/concat.rs b/src/production/non_terminals/concat.rs
index ed44cf6..c7c257c 100644
--- a/src/production/non_terminals/concat.rs
+++ b/src/production/non_terminals/concat.rs
@@ -59,6 +59,19 @@ impl<TN: NodeImpl, TL: TokenImpl> Concat<TN, TL> {
             )
         })
     }
+    fn check_initialized(&self) -> Result<(), ImplementationError> {
+        if self.symbols.get().is_none() {
+            return Err(ImplementationError::new(
+                "InitializationError".into(),
+                format!(
+                    "Symbols are not assigned for {:?}.",
+                    self.nt_helper.identifier
+                ),
+            ));
+        }
+        Ok(())
+    }
+
     fn get_productions(&self) -> &Vec<Rc<dyn IProduction<Node = TN, Token = TL>>> {
         self.symbols.get_or_init(|| {
             if cfg!(debug_assertions) {
@@ -137,6 +150,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
         mut visited: HashMap<&'id str, usize>,
     ) -> Result<bool, crate::ImplementationError> {
         self.nt_helper.validate_circular_dependency(&mut visited)?;
+        self.check_initialized()?;
 
         match self.nt_helper.nullability.get() {
             Some(s) => Ok(*s),
@@ -197,15 +211,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
             .nt_helper
             .has_visited(&mut connected_set, visited_prod)?
         {
-            if self.symbols.get().is_none() {
-                return Err(ImplementationError::new(
-                    "InitializationError".into(),
-                    format!(
-                        "Symbols are not assigned for {:?}.",
-                        self.nt_helper.identifier
-                    ),
-                ));
-            }
+            self.check_initialized()?;
 
             let mut is_nullable: bool = true;
             for prod in self.get_productions() {
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 5e85ff9..5f2ea82 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -78,6 +78,19 @@ impl<TP: IProduction> Suffixes<TP> {
             )
         })
     }
+    fn check_initialized(&self) -> Result<(), ImplementationError> {
+        if self.suffixes.get().is_none() {
+            return Err(ImplementationError::new(
+                "InitializationError".into(),
+                format!(
+                    "Suffixes symbols are not assigned for {:?}.",
+                    self.nt_helper.identifier
+                ),
+            ));
+        }
+        Ok(())
+    }
+
     fn get_suffixes(
         &self,
     ) -> &Vec<(
@@ -130,6 +143,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         mut visited: HashMap<&'id str, usize>,
     ) -> Result<bool, crate::ImplementationError> {
         self.nt_helper.validate_circular_dependency(&mut visited)?;
+        self.check_initialized()?;
         match self.nt_helper.nullability.get() {
             Some(t) => Ok(*t),
             None => {
@@ -204,15 +218,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             .nt_helper
             .has_visited(&mut connected_set, visited_prod)?
         {
-            if self.suffixes.get().is_none() {
-                return Err(ImplementationError::new(
-                    "InitializationError".into(),
-                    format!(
-                        "Suffixes symbols are not assigned for {:?}.",
-                        self.nt_helper.identifier
-                    ),
-                ));
-            }
+            self.check_initialized()?;
 
             self.left.validate(connected_set.clone(), visited_prod)?;
             let is_left_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 2cfc604..567882a 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -68,6 +68,19 @@ impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
             )
         })
     }
+    fn check_initialized(&self) -> Result<(), ImplementationError> {
+        if self.symbols.get().is_none() {
+            return Err(ImplementationError::new(
+                "InitializationError".into(),
+                format!(
+                    "Symbols are not assigned for {:?}.",
+                    self.nt_helper.identifier
+                ),
+            ));
+        }
+        Ok(())
+    }
+
     fn get_productions(&self) -> &Vec<Rc<dyn IProduction<Node = TN, Token = TL>>> {
         self.symbols.get_or_init(|| {
             if cfg!(debug_assertions) {
@@ -116,6 +129,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
         mut visited: HashMap<&'id str, usize>,
     ) -> Result<bool, crate::ImplementationError> {
         self.nt_helper.validate_circular_dependency(&mut visited)?;
+        self.check_initialized()?;
 
         match self.nt_helper.nullability.get() {
             Some(s) => Ok(*s),
@@ -172,15 +186,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
             .nt_helper
             .has_visited(&mut connected_set, visited_prod)?
         {
-            if self.symbols.get().is_none() {
-                return Err(ImplementationError::new(
-                    "InitializationError".into(),
-                    format!(
-                        "Symbols are not assigned for {:?}.",
-                        self.nt_helper.identifier
-                    ),
-                ));
-            }
+            self.check_initialized()?;
             for prod in self.get_productions() {
                 prod.validate(connected_set.clone(), visited_prod)?;
             }
-- 
2.43.0


From e6f8cc4729ad34f830f40916240ddd75e7eaa382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 28/33] fix: left recursion found while computing nullability
 is reported with its whole cycle

---
 src/production/non_terminals/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index 3bd7980..cb9978a 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -130,14 +130,15 @@ impl NTHelper {
         &'id self,
         visited_set: &mut HashMap<&'id str, usize>,
     ) -> Result<(), ImplementationError> {
-        let l = visited_set.len();
-        if visited_set.insert(self.identifier, l).is_none() {
-            Ok(())
-        } else {
+        if visited_set.contains_key(self.identifier) {
             Err(ImplementationError::new(
                 "LeftRecursive".into(),
                 build_circular_format(self.identifier, &visited_set),
             ))
+        } else {
+            let l = visited_set.len();
+            visited_set.insert(self.identifier, l);
+            Ok(())
         }
     }
 
-- 
2.43.0


From 4f3638eac226c3d836320739ff21c24a7260bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 29/33] fix: Success logs end at the end of the match, not at
 the end of the token after it

---
 src/production/mod.rs                    | 4 ++--
 src/production/non_terminals/suffixes.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index 996d25c..34f6596 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -1415,7 +1415,7 @@ trait ProductionLogger {
             Ok(data) => self.log_success(
                 _code,
                 _stream[_index].start,
-                _stream[data.consumed_index].end,
+                _stream[data.consumed_index].start,
             ),
             Err(err) => self.log_error(_code, _stream[_index].start, err),
         }
@@ -1432,7 +1432,7 @@ trait ProductionLogger {
             Ok(data) => self.log_success(
                 _code,
                 _stream[_index].start,
-                _stream[data.consumed_index].end,
+                _stream[data.consumed_index].start,
             ),
             Err(err) => self.log_error(_code, _stream[_index].start, err),
         }
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 5f2ea82..45e6f76 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -276,7 +276,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
                     self.nt_helper.log_success(
                         code,
                         token_stream[fltr_ptr].start,
-                        token_stream[data.consumed_index].end,
+                        token_stream[data.consumed_index].start,
                     );
 
                     return Ok(SuccessData::tree(data.consumed_index, ast));
-- 
2.43.0


From f5f844d7eb4b97a6252a82bd11b39ab934589f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 30/33] fix: Labelled productions report every attempt

Union and Suffixes of lexerless parsers reported no success, Suffixes no failure of its first part, NonStructural, Structural and NullProd only some of their attempts.
---
 src/production/non_terminals/suffixes.rs  | 36 +++++++++++++++++++----
 src/production/non_terminals/union.rs     |  7 ++++-
 src/production/terminals/null.rs          | 15 ++++++++--
 src/production/wrappers/non_structural.rs | 30 ++++++++++++++++---
 src/production/wrappers/structural.rs     | 34 +++++++++++++++------
 5 files changed, 100 insertions(+), 22 deletions(-)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 45e6f76..6622efa 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -244,9 +244,15 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         #[cfg(debug_assertions)]
         self.nt_helper.log_entry();
 
-        let left_success_data =
-            self.left
-                .advance_fltr_ptr(code, fltr_ptr, token_stream, cache)?;
+        let left_success_data = self
+            .left
+            .advance_fltr_ptr(code, fltr_ptr, token_stream, cache)
+            .map_err(|err| {
+                #[cfg(debug_assertions)]
+                self.nt_helper
+                    .log_error(code, token_stream[fltr_ptr].start, &err);
+                err
+            })?;
         // let mut parsed_children: Vec<Rc<AST<TProd::Token>>> = Vec::new();
 
         let suffixes = self.get_suffixes();
@@ -323,7 +329,14 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         #[cfg(debug_assertions)]
         self.nt_helper.log_entry();
 
-        let mut left_success_data = self.left.advance_token_ptr(code, index, stream, cache)?;
+        let mut left_success_data = self
+            .left
+            .advance_token_ptr(code, index, stream, cache)
+            .map_err(|err| {
+                #[cfg(debug_assertions)]
+                self.nt_helper.log_error(code, stream[index].start, &err);
+                err
+            })?;
         // let mut parsed_children: Vec<Rc<AST<TProd::Token>>> = Vec::new();
         let moved_ptr: TokenPtr = left_success_data.consumed_index;
         let suffixes = self.get_suffixes();
@@ -386,7 +399,12 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         #[cfg(debug_assertions)]
         self.nt_helper.log_entry();
 
-        let mut left_parsed_result = self.left.advance_ptr(code, index, cache)?;
+        let mut left_parsed_result =
+            self.left.advance_ptr(code, index, cache).map_err(|err| {
+                #[cfg(debug_assertions)]
+                self.nt_helper.log_error(code, index, &err);
+                err
+            })?;
         let moved_ptr: usize = left_parsed_result.consumed_index;
 
         for (prod, node_value) in self.get_suffixes() {
@@ -401,6 +419,10 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
                         None,
                         left_parsed_result.children,
                     );
+                    #[cfg(debug_assertions)]
+                    self.nt_helper
+                        .log_success(code, index, success_data.consumed_index);
+
                     return Ok(SuccessData::tree(success_data.consumed_index, ast));
                 }
                 Err(err) => {
@@ -415,6 +437,10 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         }
 
         if self.standalone {
+            #[cfg(debug_assertions)]
+            self.nt_helper
+                .log_success(code, index, left_parsed_result.consumed_index);
+
             Ok(left_parsed_result)
         } else {
             #[cfg(debug_assertions)]
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 567882a..92bf7dc 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -301,7 +301,12 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
 
         for prod in self.get_productions() {
             match prod.advance_ptr(code, index, cache) {
-                Ok(s) => return Ok(s),
+                Ok(s) => {
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(code, index, s.consumed_index);
+
+                    return Ok(s);
+                }
                 Err(err) => {
                     if err.is_invalid() {
                         #[cfg(debug_assertions)]
diff --git a/src/production/terminals/null.rs b/src/production/terminals/null.rs
index dfae4b1..0539434 100644
--- a/src/production/terminals/null.rs
+++ b/src/production/terminals/null.rs
@@ -84,11 +84,14 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for NullProd<TN, TL> {
 
     fn advance_fltr_ptr(
         &self,
-        _: &Code,
+        _code: &Code,
         index: FltrPtr,
         token_stream: &TokenStream<Self::Token>,
         _: &mut Cache<FltrPtr, Self::Node>,
     ) -> ParsedResult<FltrPtr, Self::Node> {
+        #[cfg(debug_assertions)]
+        self.log_success(_code, token_stream[index].start, token_stream[index].start);
+
         match &self.node_value {
             Some(node_value) => {
                 let pointer = token_stream.pointer(index);
@@ -109,11 +112,14 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for NullProd<TN, TL> {
 
     fn advance_token_ptr(
         &self,
-        _: &Code,
+        _code: &Code,
         index: TokenPtr,
         token_stream: &TokenStream<Self::Token>,
         _: &mut Cache<FltrPtr, Self::Node>,
     ) -> ParsedResult<TokenPtr, Self::Node> {
+        #[cfg(debug_assertions)]
+        self.log_success(_code, token_stream[index].start, token_stream[index].start);
+
         match &self.node_value {
             Some(node_value) => {
                 let pointer = token_stream[index].start;
@@ -128,10 +134,13 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for NullProd<TN, TL> {
 
     fn advance_ptr(
         &self,
-        _: &Code,
+        _code: &Code,
         index: usize,
         _: &mut Cache<usize, Self::Node>,
     ) -> ParsedResult<usize, Self::Node> {
+        #[cfg(debug_assertions)]
+        self.log_success(_code, index, index);
+
         match &self.node_value {
             Some(node_value) => Ok(SuccessData::tree(
                 index,
diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index 13e9459..128c71d 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -101,7 +101,12 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
 
         let parsed_data =
             self.get_symbol()
-                .advance_token_ptr(code, start_segment, token_stream, cache)?;
+                .advance_token_ptr(code, start_segment, token_stream, cache)
+                .map_err(|err| {
+                    #[cfg(debug_assertions)]
+                    self.log_error(code, token_stream[fltr_ptr].start, &err);
+                    err
+                })?;
 
         let result = if self.fill_range {
             let end_segment = token_stream.get_token_ptr(fltr_ptr);
@@ -127,8 +132,17 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
         stream: &TokenStream<Self::Token>,
         cache: &mut Cache<FltrPtr, Self::Node>,
     ) -> ParsedResult<TokenPtr, Self::Node> {
-        self.get_symbol()
-            .advance_token_ptr(code, index, stream, cache)
+        #[cfg(debug_assertions)]
+        self.log_entry();
+
+        let result = self
+            .get_symbol()
+            .advance_token_ptr(code, index, stream, cache);
+
+        #[cfg(debug_assertions)]
+        self.log_lex_result(code, index, stream, &result);
+
+        result
     }
 
     fn advance_ptr(
@@ -137,6 +151,14 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
         index: usize,
         cache: &mut Cache<usize, Self::Node>,
     ) -> ParsedResult<usize, Self::Node> {
-        self.get_symbol().advance_ptr(code, index, cache)
+        #[cfg(debug_assertions)]
+        self.log_entry();
+
+        let result = self.get_symbol().advance_ptr(code, index, cache);
+
+        #[cfg(debug_assertions)]
+        self.log_result(code, index, &result);
+
+        result
     }
 }
diff --git a/src/production/wrappers/structural.rs b/src/production/wrappers/structural.rs
index 7c35295..ef76def 100644
--- a/src/production/wrappers/structural.rs
+++ b/src/production/wrappers/structural.rs
@@ -91,6 +91,9 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
         token_stream: &TokenStream<Self::Token>,
         cache: &mut Cache<FltrPtr, Self::Node>,
     ) -> ParsedResult<FltrPtr, Self::Node> {
+        #[cfg(debug_assertions)]
+        self.log_entry();
+
         let result = self
             .get_symbol()
             .advance_fltr_ptr(code, fltr_ptr, token_stream, cache);
@@ -117,14 +120,12 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
 
         let parsed_data =
             self.get_symbol()
-                .advance_fltr_ptr(code, next_fltr_ptr, token_stream, cache)?;
-
-        #[cfg(debug_assertions)]
-        self.log_success(
-            code,
-            token_stream[index].start,
-            token_stream[parsed_data.consumed_index].start,
-        );
+                .advance_fltr_ptr(code, next_fltr_ptr, token_stream, cache)
+                .map_err(|err| {
+                    #[cfg(debug_assertions)]
+                    self.log_error(code, token_stream[index].start, &err);
+                    err
+                })?;
 
         let next_token_ptr = if parsed_data.consumed_index > next_fltr_ptr {
             token_stream.get_token_ptr(parsed_data.consumed_index - 1) + 1
@@ -132,6 +133,13 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
             index // Nothing has been consumed.
         };
 
+        #[cfg(debug_assertions)]
+        self.log_success(
+            code,
+            token_stream[index].start,
+            token_stream[next_token_ptr].start,
+        );
+
         Ok(SuccessData::new(next_token_ptr, parsed_data.children))
     }
 
@@ -141,6 +149,14 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
         index: usize,
         cache: &mut Cache<usize, Self::Node>,
     ) -> ParsedResult<usize, Self::Node> {
-        self.get_symbol().advance_ptr(code, index, cache)
+        #[cfg(debug_assertions)]
+        self.log_entry();
+
+        let result = self.get_symbol().advance_ptr(code, index, cache);
+
+        #[cfg(debug_assertions)]
+        self.log_result(code, index, &result);
+
+        result
     }
 }
-- 
2.43.0


From b54169a0c51858f7b06b98a37e708362fa80adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 31/33] fix: Lexemes labelled Log::None stay silent

---
 src/lexeme/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexeme/mod.rs b/src/lexeme/mod.rs
index c3904b1..10785cc 100644
--- a/src/lexeme/mod.rs
+++ b/src/lexeme/mod.rs
@@ -125,7 +125,9 @@ trait LexemeLogger {
     fn log_enter(&self) {
         #[cfg(debug_assertions)]
         if let Some(l) = self.log_cell().get() {
-            println!("Entering {}", l)
+            if l.order() > Log::None::<()>.order() {
+                println!("Entering {}", l)
+            }
         }
     }
 
-- 
2.43.0


From 6cc58e5e4e98dc49386508450e95c1a0b57ea903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 32/33] fix: A token field for the end of file token leaves it
 in the stream

---
 src/production/terminals/token_field.rs | 42 +++++++++++++++----------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/production/terminals/token_field.rs b/src/production/terminals/token_field.rs
index e2ca0b3..13360ab 100644
--- a/src/production/terminals/token_field.rs
+++ b/src/production/terminals/token_field.rs
@@ -7,8 +7,18 @@ use once_cell::unsync::OnceCell;
 use std::{
     collections::{HashMap, HashSet},
     fmt::Display,
+    ops::Add,
 };
 
+/// Where the stream goes on behind a matched token. The end of file token is matched but not consumed.
+fn behind<TL: TokenImpl, P: Add<usize, Output = P>>(token: TL, ptr: P) -> P {
+    if token == TL::eof() {
+        ptr
+    } else {
+        ptr + 1
+    }
+}
+
 /// A terminal symbol which matches a particular token.
 
 impl<TN: NodeImpl, TL: TokenImpl> TokenField<TN, TL> {
@@ -56,7 +66,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for TokenField<TN, TL> {
     type Node = TN;
     type Token = TL;
     fn is_nullable(&self) -> bool {
-        false
+        self.token == TL::eof()
     }
 
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<Self::Token>) {
@@ -81,16 +91,16 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for TokenField<TN, TL> {
                     let bound_start = stream.get_token_ptr(index);
 
                     Ok(SuccessData::tree(
-                        index + 1,
+                        behind(self.token, index),
                         ASTNode::leaf(
                             node.clone(),
                             stream[index].start,
                             stream[index].end,
-                            Some((bound_start, bound_start + 1)),
+                            Some((bound_start, behind(self.token, bound_start))),
                         ),
                     ))
                 }
-                None => Ok(SuccessData::hidden(index + 1)),
+                None => Ok(SuccessData::hidden(behind(self.token, index))),
             }
         } else {
             #[cfg(debug_assertions)]
@@ -115,15 +125,15 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for TokenField<TN, TL> {
 
             match &self.node_value {
                 Some(node) => Ok(SuccessData::tree(
-                    index + 1,
+                    behind(self.token, index),
                     ASTNode::leaf(
                         node.clone(),
                         stream[index].start,
                         stream[index].end,
-                        Some((index, index + 1)),
+                        Some((index, behind(self.token, index))),
                     ),
                 )),
-                None => Ok(SuccessData::hidden(index + 1)),
+                None => Ok(SuccessData::hidden(behind(self.token, index))),
             }
         } else {
             #[cfg(debug_assertions)]
@@ -150,7 +160,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for TokenField<TN, TL> {
         &'id self,
         _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(false)
+        Ok(self.is_nullable())
     }
 
     fn impl_grammar(
@@ -247,7 +257,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for TokenFieldSet<TN, TL> {
     type Token = TL;
     type Node = TN;
     fn is_nullable(&self) -> bool {
-        false
+        self.token_set.iter().any(|(token, _)| *token == TL::eof())
     }
 
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TL>) {
@@ -278,16 +288,16 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for TokenFieldSet<TN, TL> {
                         let bound_start = stream.get_token_ptr(index);
 
                         Ok(SuccessData::tree(
-                            index + 1,
+                            behind(self.token_set[i].0, index),
                             ASTNode::leaf(
                                 node.clone(),
                                 stream[index].start,
                                 stream[index].end,
-                                Some((bound_start, bound_start + 1)),
+                                Some((bound_start, behind(self.token_set[i].0, bound_start))),
                             ),
                         ))
                     }
-                    None => Ok(SuccessData::hidden(index + 1)),
+                    None => Ok(SuccessData::hidden(behind(self.token_set[i].0, index))),
                 }
             }
             Err(_) => {
@@ -318,15 +328,15 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for TokenFieldSet<TN, TL> {
 
                 match &self.token_set[i].1 {
                     Some(node) => Ok(SuccessData::tree(
-                        index + 1,
+                        behind(self.token_set[i].0, index),
                         ASTNode::leaf(
                             node.clone(),
                             stream[index].start,
                             stream[index].end,
-                            Some((index, index + 1)),
+                            Some((index, behind(self.token_set[i].0, index))),
                         ),
                     )),
-                    None => Ok(SuccessData::hidden(index + 1)),
+                    None => Ok(SuccessData::hidden(behind(self.token_set[i].0, index))),
                 }
             }
             Err(_) => {
@@ -354,7 +364,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for TokenFieldSet<TN, TL> {
         &'id self,
         _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(false)
+        Ok(self.is_nullable())
     }
 
     fn impl_grammar(
-- 
2.43.0


From 814e3d90cba3f422a2201ac5ec61a20674b8a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:02 +0000
Subject: [PATCH 33/33] fix: first-token prediction follows the structural
 positions of the stream

A stream made with TokenStream::new may choose other structural tokens than is_structural does; the choice then skipped alternatives of the raw view.
---
 src/production/mod.rs               |  1 -
 src/production/non_terminals/mod.rs | 20 ++++++++++++--------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index 34f6596..735cc13 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -278,7 +278,6 @@ pub struct EOFProd<TN: NodeImpl = u8, TL = i8> {
 
 /// Alternatives to be tried for the token which comes next, in their declared order.
 struct FirstSet<TL> {
-    is_structural: bool,           // All tokens of the first set are structural
     tokens: Vec<(TL, Vec<usize>)>, // Sorted tokens and the alternatives which can start with it, including the nullable ones.
     nullables: Vec<usize>,         // Alternatives for all other tokens.
 }
diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index cb9978a..01989b0 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -63,12 +63,15 @@ impl<TL: TokenImpl> FirstSet<TL> {
         tokens.sort_by_key(|(t, _)| *t);
 
         Self {
-            is_structural: tokens.iter().all(|(t, _)| t.is_structural()),
             tokens,
             nullables,
         }
     }
 
+    fn contains(&self, token: &TL) -> bool {
+        self.tokens.binary_search_by_key(token, |(t, _)| *t).is_ok()
+    }
+
     fn alternatives_of(&self, token: &TL) -> &[usize] {
         match self.tokens.binary_search_by_key(token, |(t, _)| *t) {
             Ok(index) => &self.tokens[index].1,
@@ -92,7 +95,7 @@ impl<TL: TokenImpl> FirstSet<TL> {
     fn at_fltr_ptr(&self, fltr_ptr: FltrPtr, stream: &TokenStream<TL>) -> Cow<'_, [usize]> {
         let token = &stream[fltr_ptr].token;
         let gap_token = &stream[stream.gap_start(fltr_ptr)].token;
-        if self.is_structural || gap_token.is_structural() {
+        if token == gap_token || !self.contains(gap_token) {
             Cow::Borrowed(self.alternatives_of(token))
         } else {
             self.alternatives_of_any(&[token, gap_token])
@@ -103,14 +106,15 @@ impl<TL: TokenImpl> FirstSet<TL> {
     /// which follows since the production can switch back to the structural stream.
     fn at_token_ptr(&self, token_ptr: TokenPtr, stream: &TokenStream<TL>) -> Cow<'_, [usize]> {
         let token = &stream[token_ptr].token;
-        if self.is_structural && token.is_structural() {
+        let fltr_ptr = match stream.find_filter_ptr(token_ptr) {
+            Ok(fltr_ptr) | Err(fltr_ptr) => fltr_ptr,
+        };
+        let next_token = &stream[fltr_ptr].token;
+        let gap_token = &stream[stream.gap_start(fltr_ptr)].token;
+        if token == next_token && (token == gap_token || !self.contains(gap_token)) {
             Cow::Borrowed(self.alternatives_of(token))
         } else {
-            let fltr_ptr = match stream.find_filter_ptr(token_ptr) {
-                Ok(fltr_ptr) | Err(fltr_ptr) => fltr_ptr,
-            };
-            let gap_token = &stream[stream.gap_start(fltr_ptr)].token;
-            self.alternatives_of_any(&[token, &stream[fltr_ptr].token, gap_token])
+            self.alternatives_of_any(&[token, next_token, gap_token])
         }
     }
 }
-- 
2.43.0

