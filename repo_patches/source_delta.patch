From 5812806d663b7ae52b9d410ad3b2e91da02ad13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 01/20] fix: lexan: only look for the next valid text at
 character boundaries

Unexpected text containing multi byte characters made
distance_to_next_valid_byte() slice inside a character and panic.
---
 lexan/src/lexicon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexan/src/lexicon.rs b/lexan/src/lexicon.rs
index e57e0ae..f61cbcc 100644
--- a/lexan/src/lexicon.rs
+++ b/lexan/src/lexicon.rs
@@ -75,7 +75,7 @@ where
 
     /// Returns the distance in bytes to the next valid content in `text`
     pub fn distance_to_next_valid_byte(&self, text: &str) -> usize {
-        for index in 0..text.len() {
+        for (index, _) in text.char_indices() {
             if self.literal_matcher.matches(&text[index..]) {
                 return index;
             }
-- 
2.43.0


From 463730b4ad5eb8cea194b9f4524436b5671076f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 02/20] fix: lexan: regular expressions with top level
 alternatives only match at the start

Only the first alternative of "\A" + "a|b" is anchored so a later one could
match further on in the text, giving lexemes that include unrelated text.
---
 lexan/src/matcher.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index f4a4262..0e6e5dd 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -121,6 +121,12 @@ impl<T: Eq + Debug + Copy + Ord + Display> LiteralMatcher<T> {
     }
 }
 
+/// Returns the length of the match of `regex` at the very start of `text` (if any). The "\\A"
+/// put before a pattern only anchors its first top level alternative so check where the match is.
+fn match_length(regex: &Regex, text: &str) -> Option<usize> {
+    regex.find(text).filter(|m| m.start() == 0).map(|m| m.end())
+}
+
 #[derive(Debug, Default)]
 pub(crate) struct RegexMatcher<T: Copy + Debug> {
     lexemes: Vec<(T, Regex)>,
@@ -145,11 +151,11 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
         let mut matches = vec![];
         let mut largest_end = 0;
         for (tag, regex) in self.lexemes.iter() {
-            if let Some(m) = regex.find(text) {
-                match m.end().cmp(&largest_end) {
+            if let Some(length) = match_length(regex, text) {
+                match length.cmp(&largest_end) {
                     Ordering::Equal => matches.push(*tag),
                     Ordering::Greater => {
-                        largest_end = m.end();
+                        largest_end = length;
                         matches = vec![*tag];
                     }
                     Ordering::Less => (),
@@ -162,7 +168,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
     /// Returns `true` if we match the start of the text
     pub fn matches(&self, text: &str) -> bool {
         for (_, regex) in self.lexemes.iter() {
-            if regex.find(text).is_some() {
+            if match_length(regex, text).is_some() {
                 return true;
             }
         }
@@ -194,8 +200,8 @@ impl SkipMatcher {
         let mut index = 0;
         'outer: while index < text.len() {
             for regex in self.regexes.iter() {
-                if let Some(m) = regex.find(&text[index..]) {
-                    index += m.end();
+                if let Some(length) = match_length(regex, &text[index..]) {
+                    index += length;
                     continue 'outer;
                 }
             }
@@ -206,7 +212,7 @@ impl SkipMatcher {
 
     pub fn matches(&self, text: &str) -> bool {
         for regex in self.regexes.iter() {
-            if regex.find(text).is_some() {
+            if match_length(regex, text).is_some() {
                 return true;
             }
         }
-- 
2.43.0


From 3436824544ad67f2fa91bc2b840d3fa6eb7c2220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 03/20] fix: lexan: ignore empty matches

A skip pattern or regular expression that can match the empty string made
the token stream produce empty tokens (or skip nothing) for ever.
---
 lexan/src/matcher.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index 0e6e5dd..2779ea7 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -123,8 +123,12 @@ impl<T: Eq + Debug + Copy + Ord + Display> LiteralMatcher<T> {
 
 /// Returns the length of the match of `regex` at the very start of `text` (if any). The "\\A"
 /// put before a pattern only anchors its first top level alternative so check where the match is.
+/// Empty matches are ignored as they would stop the analysis from ever advancing.
 fn match_length(regex: &Regex, text: &str) -> Option<usize> {
-    regex.find(text).filter(|m| m.start() == 0).map(|m| m.end())
+    regex
+        .find(text)
+        .filter(|m| m.start() == 0 && m.end() > 0)
+        .map(|m| m.end())
 }
 
 #[derive(Debug, Default)]
-- 
2.43.0


From f49e084840ce9b2ac418f6bab6962216c2e17f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 04/20] fix: lexan: count every line of text with mixed line
 endings

Looking for "\r\n" before "\n" skipped all of the plain "\n" that come before
the next "\r\n".
---
 lexan/src/analyzer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lexan/src/analyzer.rs b/lexan/src/analyzer.rs
index 3952d04..7e80ac0 100644
--- a/lexan/src/analyzer.rs
+++ b/lexan/src/analyzer.rs
@@ -178,11 +178,7 @@ where
         let slice = &self.text[self.index..next_index];
         let mut i = 0;
         while i < length {
-            if let Some(eol_i) = slice[i..].find("\r\n") {
-                self.location.line_number += 1;
-                self.location.offset = 1;
-                i += eol_i + 2;
-            } else if let Some(eol_i) = slice[i..].find('\n') {
+            if let Some(eol_i) = slice[i..].find('\n') {
                 self.location.line_number += 1;
                 self.location.offset = 1;
                 i += eol_i + 1;
-- 
2.43.0


From 57c86ee4bda56fbe64fc895917da9130e0de5ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 05/20] fix: text injected by semantic actions goes after the
 look ahead token

The token used to choose a reduction was treated as not having been read yet
and the injected text was put before it, so the parser's next action was
applied to a token that it wasn't chosen for. In particular "%inject" in
specifications always failed with a syntax error as the text was put between
the file's name and the "." that follows it.
---
 alalr1/src/lib.rs     |  2 +-
 lalr1/src/lib.rs      |  5 +++--
 lexan/src/analyzer.rs | 23 +++++++++++++++++++++++
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 135a747..ff70b96 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -217,7 +217,7 @@ where
                             let rhs = parse_stack.pop_n(rhs_len);
                             let next_state = Self::goto_state(&lhs, parse_stack.current_state());
                             let attribute = self.do_semantic_action(production_id, rhs, |s, l| {
-                                tokens.inject(&s, &l)
+                                tokens.inject_after_front(&s, &l)
                             });
                             parse_stack.push_non_terminal(lhs, attribute, next_state);
                         }
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 0b5ea6f..db79162 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -268,8 +268,9 @@ where
                         let (lhs, rhs_len) = Self::production_data(production_id);
                         let rhs = parse_stack.pop_n(rhs_len);
                         let next_state = Self::goto_state(&lhs, parse_stack.current_state());
-                        let attribute = self
-                            .do_semantic_action(production_id, rhs, |s, l| tokens.inject(&s, &l));
+                        let attribute = self.do_semantic_action(production_id, rhs, |s, l| {
+                            tokens.inject_after_front(&s, &l)
+                        });
                         parse_stack.push_non_terminal(lhs, attribute, next_state);
                     }
                     Action::SyntaxError => {
diff --git a/lexan/src/analyzer.rs b/lexan/src/analyzer.rs
index 7e80ac0..b869eb1 100644
--- a/lexan/src/analyzer.rs
+++ b/lexan/src/analyzer.rs
@@ -290,6 +290,29 @@ where
         }
     }
 
+    /// Inject `text` so that it follows the current front token (if there is one). This is for use
+    /// by parsers: they make their decisions using the front token (i.e. it is their "look ahead"
+    /// token) so injected text can only be allowed to affect what comes after it.
+    pub fn inject_after_front(&mut self, text: &str, label: &str) {
+        if self.is_empty() {
+            return self.inject(text, label);
+        }
+        let token_stream = BasicTokenStream::new(&self.lexicon, text, label);
+        if !token_stream.is_empty() {
+            let i = self.token_stream_stack.len() - 1;
+            let look_ahead = BasicTokenStream {
+                lexicon: Arc::clone(&self.lexicon),
+                text: String::new(),
+                index: 0,
+                location: self.token_stream_stack[i].location(),
+                front: Some(self.front.clone()),
+            };
+            self.token_stream_stack[i].advance();
+            self.token_stream_stack.push(token_stream);
+            self.token_stream_stack.push(look_ahead);
+        }
+    }
+
     pub fn advance(&mut self) {
         let mut i = self.token_stream_stack.len();
         if i > 0 {
-- 
2.43.0


From 39feaef1ccbd2b9574cd983123db90431ee238db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 06/20] fix: consider all of the states on the stack during
 error recovery

The initial state was left out so that errors at the very beginning of a text
were never recovered from even if the grammar provides for it.
---
 alalr1/src/lib.rs | 2 +-
 lalr1/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index ff70b96..2d6a6de 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -113,7 +113,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index db79162..b241062 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -171,7 +171,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
-- 
2.43.0


From f81c75b1a9655330f17661cd4133a5afc6ff914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 07/20] fix: allow a state to be used for error recovery more
 than once

The last state used for error recovery was never forgotten, so the second of
two errors with the same recovery state was always recovered from elsewhere
or (usually) ended the parsing.
---
 alalr1/src/lib.rs | 2 ++
 lalr1/src/lib.rs  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 2d6a6de..b0c1170 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -88,6 +88,8 @@ where
     fn push_terminal(&mut self, token: lexan::Token<T>, new_state: u32) {
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
+        // progress has been made so it's safe to use any state for error recovery again
+        self.last_error_state = None;
         self.attributes.push(A::from(token));
     }
 
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index b241062..093a937 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -146,6 +146,8 @@ where
     fn push_terminal(&mut self, token: lexan::Token<T>, new_state: u32) {
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
+        // progress has been made so it's safe to use any state for error recovery again
+        self.last_error_state = None;
         self.attributes.push(A::from(token));
     }
 
-- 
2.43.0


From 5c6ab86ef91d3ad08607426cd9f8c257d467c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 08/20] fix: error recovery can't go round and round the same
 states

Remembering only the most recently used recovery state allowed two states to
take turns for ever when the (merged) look ahead sets make both of them appear
to be viable for a token that neither can lead to the consumption of. Remember
all of the states used since the last token was consumed (or discarded).
---
 alalr1/src/lib.rs | 21 ++++++++-------------
 lalr1/src/lib.rs  | 21 ++++++++-------------
 2 files changed, 16 insertions(+), 26 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index b0c1170..268b197 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -48,7 +48,8 @@ where
 {
     states: Vec<(Symbol<T, N>, u32)>,
     attributes: Vec<A>,
-    last_error_state: Option<u32>,
+    // the states used for error recovery since the last token was consumed
+    error_states: OrderedSet<u32>,
 }
 
 impl<T, N, A> ParseStack<T, N, A>
@@ -60,7 +61,7 @@ where
         Self {
             states: vec![(Symbol::Start, 0)],
             attributes: vec![],
-            last_error_state: None,
+            error_states: OrderedSet::new(),
         }
     }
 
@@ -89,7 +90,7 @@ where
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
         // progress has been made so it's safe to use any state for error recovery again
-        self.last_error_state = None;
+        self.error_states = OrderedSet::new();
         self.attributes.push(A::from(token));
     }
 
@@ -99,14 +100,6 @@ where
             .push((Symbol::NonTerminal(non_terminal), new_state));
     }
 
-    fn is_last_error_state(&self, state: u32) -> bool {
-        if let Some(last_error_state) = self.last_error_state {
-            state == last_error_state
-        } else {
-            false
-        }
-    }
-
     fn distance_to_viable_state<F: Fn(&T) -> OrderedSet<u32>>(
         &mut self,
         tokens: &mut TokenStream<T>,
@@ -117,13 +110,15 @@ where
                 let viable_states = viable_error_recovery_states(token.tag());
                 for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
-                    if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
-                        self.last_error_state = Some(candidate);
+                    if !self.error_states.contains(&candidate) && viable_states.contains(&candidate)
+                    {
+                        self.error_states.insert(candidate);
                         return Some(sub - 1);
                     }
                 }
             };
             tokens.advance();
+            self.error_states = OrderedSet::new();
         }
         None
     }
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 093a937..a519a20 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -106,7 +106,8 @@ where
 {
     states: Vec<(Symbol<T, N>, u32)>,
     attributes: Vec<A>,
-    last_error_state: Option<u32>,
+    // the states used for error recovery since the last token was consumed
+    error_states: OrderedSet<u32>,
 }
 
 impl<T, N, A> ParseStack<T, N, A>
@@ -118,7 +119,7 @@ where
         Self {
             states: vec![(Symbol::Start, 0)],
             attributes: vec![],
-            last_error_state: None,
+            error_states: OrderedSet::new(),
         }
     }
 
@@ -147,7 +148,7 @@ where
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
         // progress has been made so it's safe to use any state for error recovery again
-        self.last_error_state = None;
+        self.error_states = OrderedSet::new();
         self.attributes.push(A::from(token));
     }
 
@@ -157,14 +158,6 @@ where
             .push((Symbol::NonTerminal(non_terminal), new_state));
     }
 
-    fn is_last_error_state(&self, state: u32) -> bool {
-        if let Some(last_error_state) = self.last_error_state {
-            state == last_error_state
-        } else {
-            false
-        }
-    }
-
     fn distance_to_viable_state<F: Fn(&T) -> OrderedSet<u32>>(
         &mut self,
         tokens: &mut TokenStream<T>,
@@ -175,13 +168,15 @@ where
                 let viable_states = viable_error_recovery_states(token.tag());
                 for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
-                    if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
-                        self.last_error_state = Some(candidate);
+                    if !self.error_states.contains(&candidate) && viable_states.contains(&candidate)
+                    {
+                        self.error_states.insert(candidate);
                         return Some(sub - 1);
                     }
                 }
             };
             tokens.advance();
+            self.error_states = OrderedSet::new();
         }
         None
     }
-- 
2.43.0


From fc6edbcc7572dfa309891004fe2a7abba037e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 09/20] fix: number productions from zero within each
 specification

Production identifiers came from a counter shared by the whole process, so the
second (or a concurrent) generation in a process had no start production and
produced a parser that could never accept its input.
---
 alalr1_lib/src/grammar.rs    | 14 ++++++++++----
 alalr1_lib/src/production.rs | 10 ++--------
 lalr1_lib/src/grammar.rs     | 14 ++++++++++----
 lalr1_lib/src/production.rs  | 10 ++--------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 0a3c1a5..1b27522 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -54,7 +54,7 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            spec.add_production(symbol, tail);
         }
         spec.symbol_table
             .start_non_terminal()
@@ -96,11 +96,17 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None, None);
-            let start_production = Production::new(start_symbol, start_tail);
-            self.productions.push(start_production);
+            self.add_production(start_symbol, start_tail);
         }
+        self.add_production(left_hand_side.clone(), tail.clone());
+    }
+
+    /// Production identifiers are unique within (and only within) their specification and the
+    /// first one (i.e. the start production's) is zero.
+    fn add_production(&mut self, left_hand_side: NonTerminal, tail: ProductionTail) {
+        let ident = self.productions.len() as u32;
         self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+            .push(Production::new(ident, left_hand_side, tail));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 6ceb740..c8691d6 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -71,11 +70,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -108,9 +102,9 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    pub fn new(ident: u32, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(ident),
             left_hand_side,
             tail,
         }))
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 7d7129c..e23da87 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -50,7 +50,7 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            spec.add_production(symbol, tail);
         }
         spec.symbol_table
             .start_non_terminal()
@@ -92,11 +92,17 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None);
-            let start_production = Production::new(start_symbol, start_tail);
-            self.productions.push(start_production);
+            self.add_production(start_symbol, start_tail);
         }
+        self.add_production(left_hand_side.clone(), tail.clone());
+    }
+
+    /// Production identifiers are unique within (and only within) their specification and the
+    /// first one (i.e. the start production's) is zero.
+    fn add_production(&mut self, left_hand_side: NonTerminal, tail: ProductionTail) {
+        let ident = self.productions.len() as u32;
         self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+            .push(Production::new(ident, left_hand_side, tail));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index fc7deb6..a9ede9c 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -67,11 +66,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -104,9 +98,9 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    pub fn new(ident: u32, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(ident),
             left_hand_side,
             tail,
         }))
-- 
2.43.0


From 34d9521b26ebeaf3a28a4366fa8936145d31926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:53 +0000
Subject: [PATCH 10/20] fix: never overwrite existing files unless --force is
 given

The description (.states) file was overwritten without any check, a file
created by another process after the (only) check was overwritten and so were
files whose existence couldn't be determined.
---
 alalr1_gen/src/main.rs | 56 ++++++++++++++++++++++++++++++++++++------
 lalr1_gen/src/main.rs  | 56 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 96 insertions(+), 16 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index 1f8df60..bb2c801 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -5,7 +5,7 @@ use structopt::StructOpt;
 use std::{
     convert::TryFrom,
     fs,
-    io::prelude::*,
+    io::{self, prelude::*},
     path::{Path, PathBuf},
 };
 
@@ -21,6 +21,23 @@ fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
     new_path
 }
 
+/// Create (empty) output files unless any of them already exist
+fn create_output_files(paths: &[&Path]) -> Result<(), (PathBuf, io::Error)> {
+    for (index, path) in paths.iter().enumerate() {
+        if let Err(error) = fs::OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(path)
+        {
+            for created in &paths[..index] {
+                let _ = fs::remove_file(created);
+            }
+            return Err((path.to_path_buf(), error));
+        }
+    }
+    Ok(())
+}
+
 #[derive(Debug, StructOpt)]
 #[structopt(
     name = "alalr1_gen",
@@ -52,12 +69,21 @@ fn main() {
     } else {
         with_changed_extension(&cl_options.specification, "rs")
     };
-    if output_path.exists() && !cl_options.force {
-        eprintln!(
-            "{}: output file already exists",
-            output_path.to_string_lossy()
-        );
-        std::process::exit(1);
+    let description_file = with_changed_extension(&output_path, "states");
+    if !cl_options.force {
+        for path in [&output_path, &description_file] {
+            match path.try_exists() {
+                Ok(false) => (),
+                Ok(true) => {
+                    eprintln!("{}: output file already exists", path.to_string_lossy());
+                    std::process::exit(1);
+                }
+                Err(error) => {
+                    eprintln!("{}: {error:?}", path.to_string_lossy());
+                    std::process::exit(1);
+                }
+            }
+        }
     }
     let mut file = match fs::File::open(&cl_options.specification) {
         Ok(file) => file,
@@ -113,6 +139,21 @@ fn main() {
         },
     };
 
+    if !cl_options.force
+        && let Err((path, error)) = create_output_files(&[&output_path, &description_file])
+    {
+        // some other process may have created it since we checked
+        if error.kind() == io::ErrorKind::AlreadyExists {
+            eprintln!("{}: output file already exists", path.to_string_lossy());
+            std::process::exit(1);
+        }
+        eprintln!(
+            "{}: problems creating file: {error:?}.",
+            path.to_string_lossy()
+        );
+        std::process::exit(6);
+    }
+
     if let Err(err) = grammar.write_parser_code_to_file(&output_path) {
         eprintln!(
             "{}: problems writing file: {:?}.",
@@ -122,7 +163,6 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 11a1d2b..5a06dfa 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -6,7 +6,7 @@ use structopt::StructOpt;
 use std::{
     convert::TryFrom,
     fs,
-    io::prelude::*,
+    io::{self, prelude::*},
     path::{Path, PathBuf},
 };
 
@@ -22,6 +22,23 @@ fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
     new_path
 }
 
+/// Create (empty) output files unless any of them already exist
+fn create_output_files(paths: &[&Path]) -> Result<(), (PathBuf, io::Error)> {
+    for (index, path) in paths.iter().enumerate() {
+        if let Err(error) = fs::OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(path)
+        {
+            for created in &paths[..index] {
+                let _ = fs::remove_file(created);
+            }
+            return Err((path.to_path_buf(), error));
+        }
+    }
+    Ok(())
+}
+
 #[derive(Debug, StructOpt)]
 #[structopt(
     name = "lalr1_gen",
@@ -53,12 +70,21 @@ fn main() {
     } else {
         with_changed_extension(&cl_options.specification, "rs")
     };
-    if output_path.exists() && !cl_options.force {
-        eprintln!(
-            "{}: output file already exists",
-            output_path.to_string_lossy()
-        );
-        std::process::exit(1);
+    let description_file = with_changed_extension(&output_path, "states");
+    if !cl_options.force {
+        for path in [&output_path, &description_file] {
+            match path.try_exists() {
+                Ok(false) => (),
+                Ok(true) => {
+                    eprintln!("{}: output file already exists", path.to_string_lossy());
+                    std::process::exit(1);
+                }
+                Err(error) => {
+                    eprintln!("{}: {error:?}", path.to_string_lossy());
+                    std::process::exit(1);
+                }
+            }
+        }
     }
     let mut file = match fs::File::open(&cl_options.specification) {
         Ok(file) => file,
@@ -114,6 +140,21 @@ fn main() {
         },
     };
 
+    if !cl_options.force
+        && let Err((path, error)) = create_output_files(&[&output_path, &description_file])
+    {
+        // some other process may have created it since we checked
+        if error.kind() == io::ErrorKind::AlreadyExists {
+            eprintln!("{}: output file already exists", path.to_string_lossy());
+            std::process::exit(1);
+        }
+        eprintln!(
+            "{}: problems creating file: {error:?}.",
+            path.to_string_lossy()
+        );
+        std::process::exit(6);
+    }
+
     if let Err(err) = grammar.write_parser_code_to_file(&output_path) {
         eprintln!(
             "{}: problems writing file: {:?}.",
@@ -123,7 +164,6 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
-- 
2.43.0


From a2b2a93b3ba6f69e57a3c409950696dbff6d53b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:53 +0000
Subject: [PATCH 11/20] fix: refuse output file names that would overwrite the
 specification

With --force a specification named *.rs or *.states was replaced by its own
output, and an output file named *.states by the description.
---
 alalr1_gen/src/main.rs | 18 ++++++++++++++++++
 lalr1_gen/src/main.rs  | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index bb2c801..e43bf83 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -21,6 +21,14 @@ fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
     new_path
 }
 
+fn same_file(path: &Path, other: &Path) -> bool {
+    path == other
+        || match (fs::canonicalize(path), fs::canonicalize(other)) {
+            (Ok(path), Ok(other)) => path == other,
+            _ => false,
+        }
+}
+
 /// Create (empty) output files unless any of them already exist
 fn create_output_files(paths: &[&Path]) -> Result<(), (PathBuf, io::Error)> {
     for (index, path) in paths.iter().enumerate() {
@@ -70,6 +78,16 @@ fn main() {
         with_changed_extension(&cl_options.specification, "rs")
     };
     let description_file = with_changed_extension(&output_path, "states");
+    if same_file(&output_path, &description_file)
+        || same_file(&output_path, &cl_options.specification)
+        || same_file(&description_file, &cl_options.specification)
+    {
+        eprintln!(
+            "{}: the specification and output files must be different files",
+            output_path.to_string_lossy()
+        );
+        std::process::exit(1);
+    }
     if !cl_options.force {
         for path in [&output_path, &description_file] {
             match path.try_exists() {
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 5a06dfa..cf0343f 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -22,6 +22,14 @@ fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
     new_path
 }
 
+fn same_file(path: &Path, other: &Path) -> bool {
+    path == other
+        || match (fs::canonicalize(path), fs::canonicalize(other)) {
+            (Ok(path), Ok(other)) => path == other,
+            _ => false,
+        }
+}
+
 /// Create (empty) output files unless any of them already exist
 fn create_output_files(paths: &[&Path]) -> Result<(), (PathBuf, io::Error)> {
     for (index, path) in paths.iter().enumerate() {
@@ -71,6 +79,16 @@ fn main() {
         with_changed_extension(&cl_options.specification, "rs")
     };
     let description_file = with_changed_extension(&output_path, "states");
+    if same_file(&output_path, &description_file)
+        || same_file(&output_path, &cl_options.specification)
+        || same_file(&description_file, &cl_options.specification)
+    {
+        eprintln!(
+            "{}: the specification and output files must be different files",
+            output_path.to_string_lossy()
+        );
+        std::process::exit(1);
+    }
     if !cl_options.force {
         for path in [&output_path, &description_file] {
             match path.try_exists() {
-- 
2.43.0


From 91be42c2e71de1d5a04a420d1d43e3ed7fc11045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 12/20] fix: compute FIRST sets for mutually recursive non
 terminals

Indirect left recursion made the generators overflow their stack, and when it
didn't the result could be incomplete as it depended on the order that the non
terminals were visited in (and on the order of their productions).
---
 alalr1_lib/src/grammar.rs             | 22 ++++---
 alalr1_lib/src/symbol/non_terminal.rs | 88 ++++++++++-----------------
 lalr1_lib/src/grammar.rs              | 22 ++++---
 lalr1_lib/src/symbol/non_terminal.rs  | 88 ++++++++++-----------------
 4 files changed, 88 insertions(+), 132 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 1b27522..4014c90 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -56,16 +56,18 @@ impl Specification {
         if !spec.symbol_table.error_non_terminal().is_unused() {
             spec.add_production(symbol, tail);
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for non_terminal in [
+                spec.symbol_table.start_non_terminal(),
+                spec.symbol_table.error_non_terminal(),
+            ]
+            .into_iter()
+            .chain(spec.symbol_table.non_terminals())
+            {
+                changed |= non_terminal.update_firsts_data(&spec.productions);
+            }
         }
         Ok(spec)
     }
diff --git a/alalr1_lib/src/symbol/non_terminal.rs b/alalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..bd88f16 100644
--- a/alalr1_lib/src/symbol/non_terminal.rs
+++ b/alalr1_lib/src/symbol/non_terminal.rs
@@ -171,83 +171,59 @@ impl NonTerminal {
 
     pub fn firsts_data(&self) -> FirstsData {
         let msg = format!("{} :should be set", self.name());
-        match self {
-            NonTerminal::UserDefined(non_terminal_data)
-            | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().clone().expect(&msg)
-            }
-        }
+        self.o_firsts_data().expect(&msg)
     }
 
-    fn firsts_data_is_set(&self) -> bool {
+    fn o_firsts_data(&self) -> Option<FirstsData> {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
+                non_terminal_data.firsts_data.borrow().clone()
             }
         }
     }
 
-    pub fn set_firsts_data(&self, productions: &[Production]) {
+    /// Update our firsts data using the current values for the non terminals in our productions
+    /// (none, if they have no value yet) and return `true` if that changed it. Productions may be
+    /// (mutually) recursive so this needs to be repeated for all non terminals until none change.
+    pub fn update_firsts_data(&self, productions: &[Production]) -> bool {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
-                }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
-                let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
-                        for rhs_symbol in production.right_hand_side_symbols() {
-                            match rhs_symbol {
-                                Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
-                                    }
-                                }
-                                Symbol::Terminal(token) => {
-                                    token_set.insert(token);
+                let o_old = non_terminal_data.firsts_data.borrow().clone();
+                let mut new = o_old.clone().unwrap_or_default();
+                for production in productions.iter().filter(|x| x.left_hand_side() == self) {
+                    let mut transparent_production = true;
+                    for rhs_symbol in production.right_hand_side_symbols() {
+                        match rhs_symbol {
+                            Symbol::NonTerminal(non_terminal) => {
+                                let firsts_data = non_terminal.o_firsts_data().unwrap_or_default();
+                                new.token_set |= &firsts_data.token_set;
+                                if !firsts_data.transparent {
                                     transparent_production = false;
                                     break;
                                 }
                             }
-                        }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
+                            Symbol::Terminal(token) => {
+                                new.token_set.insert(token);
+                                transparent_production = false;
+                                break;
+                            }
                         }
                     }
+                    new.transparent |= transparent_production;
                 }
-                *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
-                    token_set,
-                    transparent,
-                });
+                let changed = match o_old {
+                    Some(old) => {
+                        old.transparent != new.transparent
+                            || old.token_set.len() != new.token_set.len()
+                    }
+                    None => true,
+                };
+                *non_terminal_data.firsts_data.borrow_mut() = Some(new);
+                changed
             }
         }
     }
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index e23da87..ca1ca4a 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -52,16 +52,18 @@ impl Specification {
         if !spec.symbol_table.error_non_terminal().is_unused() {
             spec.add_production(symbol, tail);
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for non_terminal in [
+                spec.symbol_table.start_non_terminal(),
+                spec.symbol_table.error_non_terminal(),
+            ]
+            .into_iter()
+            .chain(spec.symbol_table.non_terminals())
+            {
+                changed |= non_terminal.update_firsts_data(&spec.productions);
+            }
         }
         Ok(spec)
     }
diff --git a/lalr1_lib/src/symbol/non_terminal.rs b/lalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..bd88f16 100644
--- a/lalr1_lib/src/symbol/non_terminal.rs
+++ b/lalr1_lib/src/symbol/non_terminal.rs
@@ -171,83 +171,59 @@ impl NonTerminal {
 
     pub fn firsts_data(&self) -> FirstsData {
         let msg = format!("{} :should be set", self.name());
-        match self {
-            NonTerminal::UserDefined(non_terminal_data)
-            | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().clone().expect(&msg)
-            }
-        }
+        self.o_firsts_data().expect(&msg)
     }
 
-    fn firsts_data_is_set(&self) -> bool {
+    fn o_firsts_data(&self) -> Option<FirstsData> {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
+                non_terminal_data.firsts_data.borrow().clone()
             }
         }
     }
 
-    pub fn set_firsts_data(&self, productions: &[Production]) {
+    /// Update our firsts data using the current values for the non terminals in our productions
+    /// (none, if they have no value yet) and return `true` if that changed it. Productions may be
+    /// (mutually) recursive so this needs to be repeated for all non terminals until none change.
+    pub fn update_firsts_data(&self, productions: &[Production]) -> bool {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
-                }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
-                let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
-                        for rhs_symbol in production.right_hand_side_symbols() {
-                            match rhs_symbol {
-                                Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
-                                    }
-                                }
-                                Symbol::Terminal(token) => {
-                                    token_set.insert(token);
+                let o_old = non_terminal_data.firsts_data.borrow().clone();
+                let mut new = o_old.clone().unwrap_or_default();
+                for production in productions.iter().filter(|x| x.left_hand_side() == self) {
+                    let mut transparent_production = true;
+                    for rhs_symbol in production.right_hand_side_symbols() {
+                        match rhs_symbol {
+                            Symbol::NonTerminal(non_terminal) => {
+                                let firsts_data = non_terminal.o_firsts_data().unwrap_or_default();
+                                new.token_set |= &firsts_data.token_set;
+                                if !firsts_data.transparent {
                                     transparent_production = false;
                                     break;
                                 }
                             }
-                        }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
+                            Symbol::Terminal(token) => {
+                                new.token_set.insert(token);
+                                transparent_production = false;
+                                break;
+                            }
                         }
                     }
+                    new.transparent |= transparent_production;
                 }
-                *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
-                    token_set,
-                    transparent,
-                });
+                let changed = match o_old {
+                    Some(old) => {
+                        old.transparent != new.transparent
+                            || old.token_set.len() != new.token_set.len()
+                    }
+                    None => true,
+                };
+                *non_terminal_data.firsts_data.borrow_mut() = Some(new);
+                changed
             }
         }
     }
-- 
2.43.0


From 2e2c18c056874bc6dfbe69711aa7c3c6f0f06cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 13/20] fix: report specification errors instead of panicking

After reporting that a production's name is the same as a token's or that a tag
is a duplicate the semantic actions went on to treat the attribute as if it was
valid and panicked.
---
 alalr1_lib/src/parser.alaps | 15 ++++++++++-----
 alalr1_lib/src/parser.rs    | 15 ++++++++++-----
 lalr1_lib/src/parser.laps   | 15 ++++++++++-----
 lalr1_lib/src/parser.rs     | 15 ++++++++++-----
 4 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index c95b08a..a9be6c1 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -275,7 +275,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -288,10 +291,12 @@ ProductionRules: OptionalInjection ProductionGroup OptionalInjection
 
 ProductionGroup: ProductionGroupHead ProductionTailList "."
         !{
-            let lhs = $1.left_hand_side();
-            let tails = $2.production_tail_list();
-            for tail in tails.iter() {
-                self.new_production(lhs, tail);
+            // NB if it isn't a left hand side then that error has already been reported
+            if let AttributeData::LeftHandSide(lhs) = &$1 {
+                let tails = $2.production_tail_list();
+                for tail in tails.iter() {
+                    self.new_production(lhs, tail);
+                }
             }
         !}
     .
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index c6ce0f9..9cc447b 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -1514,7 +1514,10 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1522,10 +1525,12 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
             42 => {
                 // ProductionGroup: ProductionGroupHead ProductionTailList "." #(NonAssoc, 0)
                 
-            let lhs = aa_rhs[0].left_hand_side();
-            let tails = aa_rhs[1].production_tail_list();
-            for tail in tails.iter() {
-                self.new_production(lhs, tail);
+            // NB if it isn't a left hand side then that error has already been reported
+            if let AttributeData::LeftHandSide(lhs) = &aa_rhs[0] {
+                let tails = aa_rhs[1].production_tail_list();
+                for tail in tails.iter() {
+                    self.new_production(lhs, tail);
+                }
             }
         
             }
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 7a12830..4b682da 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -279,7 +279,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -292,10 +295,12 @@ ProductionRules: OptionalInjection ProductionGroup OptionalInjection
 
 ProductionGroup: ProductionGroupHead ProductionTailList "."
         !{
-            let lhs = $1.left_hand_side();
-            let tails = $2.production_tail_list();
-            for tail in tails.iter() {
-                self.new_production(lhs, tail);
+            // NB if it isn't a left hand side then that error has already been reported
+            if let AttributeData::LeftHandSide(lhs) = &$1 {
+                let tails = $2.production_tail_list();
+                for tail in tails.iter() {
+                    self.new_production(lhs, tail);
+                }
             }
         !}
     .
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index a61bd30..facf6f1 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -1435,7 +1435,10 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1443,10 +1446,12 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
             41 => {
                 // ProductionGroup: ProductionGroupHead ProductionTailList "." #(NonAssoc, 0)
                 
-            let lhs = aa_rhs[0].left_hand_side();
-            let tails = aa_rhs[1].production_tail_list();
-            for tail in tails.iter() {
-                self.new_production(lhs, tail);
+            // NB if it isn't a left hand side then that error has already been reported
+            if let AttributeData::LeftHandSide(lhs) = &aa_rhs[0] {
+                let tails = aa_rhs[1].production_tail_list();
+                for tail in tails.iter() {
+                    self.new_production(lhs, tail);
+                }
             }
         
             }
-- 
2.43.0


From 07220b8f4625dbe811a745e5300f934e4db12c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 14/20] fix: don't panic on references to attributes that can't
 exist

"$0" in an action, or a number bigger than the number of symbols in a
predicate, made the generator panic while it was part way through writing the
parser's code. Leave them as they are for the compiler to complain about (if
they aren't just part of a string or comment).
---
 alalr1_lib/src/production.rs | 15 ++++++++++-----
 lalr1_lib/src/production.rs  |  5 ++++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index c8691d6..f6a2a80 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -151,10 +151,12 @@ impl Production {
             let rhs_len = self.0.tail.0.right_hand_side.len();
             let string = RHS_CRE
                 .replace_all(predicate, |caps: &regex::Captures| {
-                    format!(
-                        "aa_attributes.at_len_minus_n({})",
-                        rhs_len + 1 - usize::from_str(&caps[1]).unwrap()
-                    )
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n <= rhs_len => {
+                            format!("aa_attributes.at_len_minus_n({})", rhs_len + 1 - n)
+                        }
+                        _ => caps[0].to_string(),
+                    }
                 })
                 .to_string();
             let string = string.replace("$?", "aa_tag");
@@ -171,7 +173,10 @@ impl Production {
             let string = string.replace("$INJECT", "aa_inject");
             let string = RHS_CRE
                 .replace_all(&string, |caps: &regex::Captures| {
-                    format!("aa_rhs[{}]", usize::from_str(&caps[1]).unwrap() - 1)
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n > 0 => format!("aa_rhs[{}]", n - 1),
+                        _ => caps[0].to_string(),
+                    }
                 })
                 .to_string();
             Some(string)
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index a9ede9c..53a8da0 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -145,7 +145,10 @@ impl Production {
             let string = string.replace("$INJECT", "aa_inject");
             let string = RHS_CRE
                 .replace_all(&string, |caps: &regex::Captures| {
-                    format!("aa_rhs[{}]", usize::from_str(&caps[1]).unwrap() - 1)
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n > 0 => format!("aa_rhs[{}]", n - 1),
+                        _ => caps[0].to_string(),
+                    }
                 })
                 .to_string();
             Some(string)
-- 
2.43.0


From d9f278980f50137d1e1221090dbeec60371d897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 15/20] fix: propagate look ahead tokens to every item when
 merging states

Only the kernel items' look ahead sets were updated so items derived from them (in
particular empty productions) kept the look ahead set of the first state merged and
valid text was rejected.
---
 alalr1_lib/src/state.rs | 2 +-
 lalr1_lib/src/state.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 8f230af..cb53d72 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -101,7 +101,7 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 88e6d69..8536e07 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -101,7 +101,7 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
-- 
2.43.0


From 44ddd5ba4a93affa1a8c351649a0adc1c378dc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 16/20] fix: braces in literal tokens broke the generated
 Display code

---
 alalr1_lib/src/grammar.rs | 4 +++-
 lalr1_lib/src/grammar.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 4014c90..e4ab202 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -435,9 +435,11 @@ impl Grammar {
             wtr.write_all(b"            AATerminal::")?;
             match token {
                 Token::Literal(token_data) => {
+                    // braces in the literal must not be mistaken for format arguments
                     wtr.write_fmt(format_args!(
                         "{} => write!(f, r###\"{}\"###),\n",
-                        token_data.name, token_data.text
+                        token_data.name,
+                        token_data.text.replace('{', "{{").replace('}', "}}")
                     ))?;
                 }
                 Token::Regex(token_data) => {
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index ca1ca4a..79f9c5c 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -431,9 +431,11 @@ impl Grammar {
             wtr.write_all(b"            AATerminal::")?;
             match token {
                 Token::Literal(token_data) => {
+                    // braces in the literal must not be mistaken for format arguments
                     wtr.write_fmt(format_args!(
                         "{} => write!(f, r###\"{}\"###),\n",
-                        token_data.name, token_data.text
+                        token_data.name,
+                        token_data.text.replace('{', "{{").replace('}', "}}")
                     ))?;
                 }
                 Token::Regex(token_data) => {
-- 
2.43.0


From f7765972574aad767254569fa172c378492c4fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 17/20] fix: multi line predicates broke the comments in
 generated code

---
 alalr1_lib/src/grammar.rs    |  5 ++++-
 alalr1_lib/src/production.rs |  5 +++++
 alalr1_lib/src/state.rs      | 10 ++++++++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index e4ab202..5ef8550 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -197,7 +197,10 @@ impl Specification {
         for production in self.productions.iter() {
             if let Some(action_code) = production.expanded_action() {
                 wtr.write_fmt(format_args!("            {} => {{\n", production.ident()))?;
-                wtr.write_fmt(format_args!("                // {production}\n"))?;
+                wtr.write_fmt(format_args!(
+                    "                // {}\n",
+                    production.comment_text()
+                ))?;
                 wtr.write_fmt(format_args!("                {action_code}\n"))?;
                 wtr.write_all(b"            }\n")?;
             }
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index f6a2a80..e8d9e09 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -185,6 +185,11 @@ impl Production {
         }
     }
 
+    /// One line version of our description for use in comments (predicates can be multi line)
+    pub fn comment_text(&self) -> String {
+        self.to_string().replace('\n', " ")
+    }
+
     pub fn has_error_recovery_tail(&self) -> bool {
         if let Some(symbol) = self.0.tail.0.right_hand_side.last() {
             match symbol {
diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index cb53d72..12c6b22 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -294,7 +294,10 @@ impl ParserState {
                 // NB this is clumsy but first() for OrderedSet is only experimental
                 let production = productions.iter().next().expect("len() == 1");
                 debug_assert!(!production.has_predicate());
-                wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
+                wtr.write_fmt(format_args!(
+                    "{indent}    // {}\n",
+                    production.comment_text()
+                ))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
                         "{}    {} => Action::Accept,\n",
@@ -331,7 +334,10 @@ impl ParserState {
                     } else {
                         wtr.write_fmt(format_args!("{indent}        }} else {{\n",))?;
                     }
-                    wtr.write_fmt(format_args!("{indent}            // {production}\n"))?;
+                    wtr.write_fmt(format_args!(
+                        "{indent}            // {}\n",
+                        production.comment_text()
+                    ))?;
                     if production.is_start_production() {
                         wtr.write_fmt(format_args!("{indent}            Action::Accept\n",))?;
                     } else {
-- 
2.43.0


From 5342a54b0f10d84c7a600909c9e555231933ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 18/20] fix: predicates without a fallback production generated
 code that didn't compile

---
 alalr1_lib/src/state.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 12c6b22..2b78c53 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -290,10 +290,9 @@ impl ParserState {
             ))?;
         }
         for (productions, look_ahead_set) in reductions.reductions() {
-            if productions.len() == 1 {
-                // NB this is clumsy but first() for OrderedSet is only experimental
-                let production = productions.iter().next().expect("len() == 1");
-                debug_assert!(!production.has_predicate());
+            // NB this is clumsy but first() for OrderedSet is only experimental
+            let production = productions.iter().next().expect("can't be empty");
+            if productions.len() == 1 && !production.has_predicate() {
                 wtr.write_fmt(format_args!(
                     "{indent}    // {}\n",
                     production.comment_text()
@@ -323,13 +322,13 @@ impl ParserState {
                         wtr.write_fmt(format_args!(
                             "{}        if {} {{\n",
                             indent,
-                            production.expanded_predicate().expect("more than one")
+                            production.expanded_predicate().expect("has a predicate")
                         ))?;
                     } else if production.has_predicate() {
                         wtr.write_fmt(format_args!(
                             "{}        }} else if {} {{\n",
                             indent,
-                            production.expanded_predicate().expect("more than one")
+                            production.expanded_predicate().expect("has a predicate")
                         ))?;
                     } else {
                         wtr.write_fmt(format_args!("{indent}        }} else {{\n",))?;
@@ -348,6 +347,11 @@ impl ParserState {
                         ))?;
                     }
                 }
+                if productions.iter().all(|x| x.has_predicate()) {
+                    // no reduction without a predicate to fall back on
+                    wtr.write_fmt(format_args!("{indent}        }} else {{\n"))?;
+                    wtr.write_fmt(format_args!("{indent}            Action::SyntaxError\n"))?;
+                }
                 wtr.write_fmt(format_args!("{indent}        }}\n"))?;
                 wtr.write_fmt(format_args!("{indent}    }}\n"))?;
             }
-- 
2.43.0


From 2ca1f35be559e1cff2ee513f394ace0d115ae9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 19/20] fix: output names replace only the last extension

---
 alalr1_gen/src/main.rs | 14 ++------------
 lalr1_gen/src/main.rs  | 14 ++------------
 2 files changed, 4 insertions(+), 24 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index e43bf83..610b808 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -11,16 +11,6 @@ use std::{
 
 use alalr1_lib::grammar;
 
-fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
-    let mut new_path = PathBuf::new();
-    if let Some(dir) = path.parent() {
-        new_path.push(dir);
-    };
-    new_path.push(path.file_stem().unwrap());
-    new_path.set_extension(new_extension);
-    new_path
-}
-
 fn same_file(path: &Path, other: &Path) -> bool {
     path == other
         || match (fs::canonicalize(path), fs::canonicalize(other)) {
@@ -75,9 +65,9 @@ fn main() {
     let output_path = if let Some(output_path) = cl_options.output {
         output_path
     } else {
-        with_changed_extension(&cl_options.specification, "rs")
+        cl_options.specification.with_extension("rs")
     };
-    let description_file = with_changed_extension(&output_path, "states");
+    let description_file = output_path.with_extension("states");
     if same_file(&output_path, &description_file)
         || same_file(&output_path, &cl_options.specification)
         || same_file(&description_file, &cl_options.specification)
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index cf0343f..767d438 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -12,16 +12,6 @@ use std::{
 
 use lalr1_lib::grammar;
 
-fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
-    let mut new_path = PathBuf::new();
-    if let Some(dir) = path.parent() {
-        new_path.push(dir);
-    };
-    new_path.push(path.file_stem().unwrap());
-    new_path.set_extension(new_extension);
-    new_path
-}
-
 fn same_file(path: &Path, other: &Path) -> bool {
     path == other
         || match (fs::canonicalize(path), fs::canonicalize(other)) {
@@ -76,9 +66,9 @@ fn main() {
     let output_path = if let Some(output_path) = cl_options.output {
         output_path
     } else {
-        with_changed_extension(&cl_options.specification, "rs")
+        cl_options.specification.with_extension("rs")
     };
-    let description_file = with_changed_extension(&output_path, "states");
+    let description_file = output_path.with_extension("states");
     if same_file(&output_path, &description_file)
         || same_file(&output_path, &cl_options.specification)
         || same_file(&description_file, &cl_options.specification)
-- 
2.43.0


From cd1daf51044bba0f8b444a126251a17b0c3f77dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 20/20] fix: quotation marks followed by hashes in tokens
 produced code that doesn't compile

---
 alalr1_lib/src/grammar.rs | 21 +++++++++++++++++----
 lalr1_lib/src/grammar.rs  | 21 +++++++++++++++++----
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 5ef8550..b8ea855 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -344,6 +344,15 @@ impl TryFrom<(Specification, bool, bool)> for Grammar {
     }
 }
 
+/// The hashes a raw string needs in order to contain the text (at least three).
+fn raw_string_hashes(text: &str) -> String {
+    let mut hashes = "###".to_string();
+    while text.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
+    hashes
+}
+
 impl Grammar {
     fn resolve_conflicts(&mut self) -> (u32, u32) {
         let mut sr_conflicts = 0_u32;
@@ -439,8 +448,9 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     // braces in the literal must not be mistaken for format arguments
+                    let hashes = raw_string_hashes(&token_data.text);
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => write!(f, r{hashes}\"{}\"{hashes}),\n",
                         token_data.name,
                         token_data.text.replace('{', "{{").replace('}', "}}")
                     ))?;
@@ -498,8 +508,9 @@ impl Grammar {
         wtr.write_all(b"            &[\n")?;
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
+            let hashes = raw_string_hashes(token.text());
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, r{hashes}{}{hashes}),\n",
                 token.name(),
                 token.text()
             ))?;
@@ -508,8 +519,9 @@ impl Grammar {
         wtr.write_all(b"            &[\n")?;
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
+            let hashes = raw_string_hashes(token.text());
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, r{hashes}\"{}\"{hashes}),\n",
                 token.name(),
                 token.text()
             ))?;
@@ -518,7 +530,8 @@ impl Grammar {
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            let hashes = raw_string_hashes(skip_rule);
+            wtr.write_fmt(format_args!("r{hashes}\"{skip_rule}\"{hashes},\n"))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 79f9c5c..ae739ff 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -337,6 +337,15 @@ impl TryFrom<(Specification, bool, bool)> for Grammar {
     }
 }
 
+/// The hashes a raw string needs in order to contain the text (at least three).
+fn raw_string_hashes(text: &str) -> String {
+    let mut hashes = "###".to_string();
+    while text.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
+    hashes
+}
+
 impl Grammar {
     fn resolve_conflicts(&mut self) -> (u32, u32) {
         let mut sr_conflicts = 0_u32;
@@ -432,8 +441,9 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     // braces in the literal must not be mistaken for format arguments
+                    let hashes = raw_string_hashes(&token_data.text);
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => write!(f, r{hashes}\"{}\"{hashes}),\n",
                         token_data.name,
                         token_data.text.replace('{', "{{").replace('}', "}}")
                     ))?;
@@ -491,8 +501,9 @@ impl Grammar {
         wtr.write_all(b"            &[\n")?;
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
+            let hashes = raw_string_hashes(token.text());
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, r{hashes}{}{hashes}),\n",
                 token.name(),
                 token.text()
             ))?;
@@ -501,8 +512,9 @@ impl Grammar {
         wtr.write_all(b"            &[\n")?;
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
+            let hashes = raw_string_hashes(token.text());
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, r{hashes}\"{}\"{hashes}),\n",
                 token.name(),
                 token.text()
             ))?;
@@ -511,7 +523,8 @@ impl Grammar {
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            let hashes = raw_string_hashes(skip_rule);
+            wtr.write_fmt(format_args!("r{hashes}\"{skip_rule}\"{hashes},\n"))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
-- 
2.43.0

