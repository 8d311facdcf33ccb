From a211ad18ba5a875310b2ad51a2aad46254360396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 01/15] fix: CartesianProduct::extend only adds the first
 elements of the new factors

It pushed the first elements of all factors, including those already present, so
that a combination had more elements than factors.
---
 gearley-utils/src/cartesian_product.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-utils/src/cartesian_product.rs b/gearley-utils/src/cartesian_product.rs
index c158437..13ef6f7 100644
--- a/gearley-utils/src/cartesian_product.rs
+++ b/gearley-utils/src/cartesian_product.rs
@@ -63,11 +63,11 @@ impl<'a, V> CartesianProduct<'a, V> {
     where
         I: Iterator<Item = &'a [V]>,
     {
+        let start = self.ranges.len();
         self.ranges.extend(product.map(|slice| Factor::new(slice)));
         unsafe {
-            // FIXME wrong range
             self.ptrs
-                .extend(self.ranges.iter().map(|factor| &*factor.start));
+                .extend(self.ranges[start..].iter().map(|factor| &*factor.start));
         }
     }
 
-- 
2.43.0


From 5d08723563a287f3e078ebf896f40c2333dadbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 02/15] fix: CartesianProduct does not form references outside
 its factors

Factor::advance stepped a reference one element past the end of the slice before
comparing it with the end, with a pointer that was only valid for one element; an
empty factor yielded a reference to no element, and a factor of a zero-sized type
was taken to have one element. Keep the slice and a position.
---
 gearley-utils/src/cartesian_product.rs | 44 +++++++++-----------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/gearley-utils/src/cartesian_product.rs b/gearley-utils/src/cartesian_product.rs
index 13ef6f7..4dcf4c7 100644
--- a/gearley-utils/src/cartesian_product.rs
+++ b/gearley-utils/src/cartesian_product.rs
@@ -1,32 +1,22 @@
-use std::marker::PhantomData;
-
 pub struct Factor<'a, V: 'a> {
-    start: *const V,
-    end: *const V,
-    marker: PhantomData<&'a V>,
+    slice: &'a [V],
+    pos: usize,
 }
 
 impl<'a, V> Factor<'a, V> {
     fn new(slice: &'a [V]) -> Self {
-        let start = slice.as_ptr();
-        unsafe {
-            Factor {
-                start,
-                end: start.offset(slice.len() as isize),
-                marker: PhantomData,
-            }
-        }
+        Factor { slice, pos: 0 }
     }
 
     fn advance(&mut self, ptr: &mut &'a V) -> bool {
-        unsafe {
-            *ptr = &*(*ptr as *const V).offset(1);
-            if *ptr as *const _ == self.end {
-                *ptr = &*self.start;
-                true
-            } else {
-                false
-            }
+        self.pos += 1;
+        if self.pos == self.slice.len() {
+            self.pos = 0;
+            *ptr = &self.slice[0];
+            true
+        } else {
+            *ptr = &self.slice[self.pos];
+            false
         }
     }
 }
@@ -52,10 +42,8 @@ impl<'a, V> CartesianProduct<'a, V> {
     /// Multiplies the cartesian product by a slice.
     pub fn push(&mut self, slice: &'a [V]) {
         self.ranges.push(Factor::new(slice));
-        unsafe {
-            self.ptrs
-                .push(self.ranges.last().map(|factor| &*factor.start).unwrap());
-        }
+        self.ptrs
+            .push(self.ranges.last().map(|factor| &factor.slice[0]).unwrap());
     }
 
     /// Multiplies the cartesian product by an iterator.
@@ -65,10 +53,8 @@ impl<'a, V> CartesianProduct<'a, V> {
     {
         let start = self.ranges.len();
         self.ranges.extend(product.map(|slice| Factor::new(slice)));
-        unsafe {
-            self.ptrs
-                .extend(self.ranges[start..].iter().map(|factor| &*factor.start));
-        }
+        self.ptrs
+            .extend(self.ranges[start..].iter().map(|factor| &factor.slice[0]));
     }
 
     pub fn as_slice(&self) -> &[&'a V] {
-- 
2.43.0


From dc15caf7914f106718de524314c2fdb230e1a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 03/15] fix: Recognizer::reset clears the predictions of all
 sets and the lookahead hint

Only the first row of predictions was cleared, and later rows are created by
union with what is there, so that a parse after a reset could accept what a new
recognizer rejects. A hint that was set but not used also survived.
---
 gearley-recognizer/src/recognizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 41d9e4f..e489cb4 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -320,8 +320,10 @@ where
         // Remove items.
         self.medial.clear();
         self.complete.clear();
+        self.lookahead.clear_hint();
         // Earleme is now equal 0.
         // Reset predictions.
+        self.predicted.truncate(1);
         self.predicted[0].clear();
         self.predicted[0].predict(
             self.grammar.start_sym(),
-- 
2.43.0


From f0120844a0905caa6a3395eb41fed515186e66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 04/15] fix: compact bocage reads node operands without
 alignment requirements

bytemuck::from_bytes panics when the local byte array is not aligned to four
bytes. Use explicit little-endian conversions, as in push.
---
 compact-bocage/src/graph.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/compact-bocage/src/graph.rs b/compact-bocage/src/graph.rs
index fac9357..cb88e57 100644
--- a/compact-bocage/src/graph.rs
+++ b/compact-bocage/src/graph.rs
@@ -1,4 +1,3 @@
-use bytemuck::{bytes_of, from_bytes};
 use cfg_symbol::Symbol;
 use gearley_forest::node_handle::NodeHandle;
 
@@ -72,10 +71,10 @@ impl Graph {
         let mut left_slice = [0; 4];
         let mid = index + 1 + l_len as usize;
         left_slice[0..l_len as usize].copy_from_slice(&self.vect[index + 1..mid]);
-        let &left: &u32 = from_bytes(&left_slice[..]);
+        let left = u32::from_le_bytes(left_slice);
         let mut right_slice = [0; 4];
         right_slice[0..r_len as usize].copy_from_slice(&self.vect[mid..mid + r_len as usize]);
-        let &right: &u32 = from_bytes(&right_slice[..]);
+        let right = u32::from_le_bytes(right_slice);
         match discr {
             0 => Node::BeginSum,
             1 => Node::EndSum,
@@ -133,7 +132,7 @@ impl Graph {
             Node::NullingLeaf { symbol } => [6, symbol.usize() as u32, 0],
         };
         self.vect.push(discr as u8 | 0b1111000);
-        self.vect.extend(bytes_of(&left));
-        self.vect.extend(bytes_of(&right));
+        self.vect.extend(left.to_le_bytes());
+        self.vect.extend(right.to_le_bytes());
     }
 }
-- 
2.43.0


From 3da2dafefac41bbdb891a26e4e8fb36f141a4eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 05/15] fix: compact bocage evaluates the empty input

It returned no value where the simple bocage evaluates the nulling start symbol.
---
 compact-bocage/src/traverse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index bd5a100..d1fec7b 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -45,7 +45,11 @@ impl Bocage {
                     }
                     right_factor
                 }
-                _ => return vec![],
+                _ => {
+                    let mut start_results = vec![];
+                    eval.nulling(self.forest_info.start, &mut start_results);
+                    return start_results;
+                }
             },
             Node::BeginSum => match self.get(NodeHandle(root_node.0 + 1)) {
                 Node::Summand { factors, .. } => match self.get(factors) {
-- 
2.43.0


From 61d7a8d94cd027f8e245eea33c4cd9a192b2ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 06/15] fix: completion groups begin a sum in the forest when
 they are obtained

A group that was completed through next_summand, push_summand and complete_sum
never announced itself to the forest, which the compact bocage relies on.
---
 gearley-recognizer/src/recognizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index e489cb4..c98fe18 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -658,6 +658,7 @@ where
     pub fn next_sum<'r>(&'r mut self) -> Option<CompleteGroup<'r, F, G, P>> {
         if let Some(ei) = self.heap_peek() {
             let lhs_sym = self.grammar.get_lhs(ei.dot);
+            self.forest.begin_sum();
             Some(CompleteGroup {
                 origin: ei.origin,
                 lhs_sym,
@@ -677,7 +678,6 @@ where
 {
     /// Completes all items.
     pub fn complete_entire_sum(&mut self) {
-        self.recognizer.forest.begin_sum();
         // For each item, include it in the completion.
         while let Some(item) = self.next_summand() {
             self.push_summand(item);
-- 
2.43.0


From 16b48e60ddcbeb034cb95cb3f42dc011c74b253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 07/15] fix: parsing a token that no useful rule mentions is a
 parse error, not a panic

---
 gearley-utils/src/parse.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gearley-utils/src/parse.rs b/gearley-utils/src/parse.rs
index b8951eb..e1734c8 100644
--- a/gearley-utils/src/parse.rs
+++ b/gearley-utils/src/parse.rs
@@ -56,6 +56,14 @@ impl Display for ParseError {
     }
 }
 
+/// The internal symbol for a token. A token that no useful rule mentions has none, and is read
+/// as a symbol that is never expected.
+fn to_internal<G: Grammar>(grammar: &G, token: Symbol) -> Symbol {
+    grammar
+        .to_internal(token)
+        .unwrap_or_else(|| grammar.useless_symbol())
+}
+
 impl<G, F, P> RecognizerParseExt for Recognizer<G, F, P>
 where
     Self: Debug,
@@ -79,13 +87,13 @@ where
             self.begin_earleme();
             if let Some((_i, t)) = iter.peek() {
                 trace!("utils.lookahead_set_hint: {:?}", **t);
-                let s = self.grammar().to_internal(**t).unwrap();
+                let s = to_internal(self.grammar(), **t);
                 self.lookahead().set_hint(s);
             } else {
                 trace!("utils.lookahead_clear_hint: None null");
                 self.lookahead().clear_hint();
             }
-            self.scan(self.grammar().to_internal(token).unwrap(), i as u32);
+            self.scan(to_internal(self.grammar(), token), i as u32);
             if !self.end_earleme() {
                 return Err(ParseError::Parse {
                     msg: "failed to parse",
@@ -157,7 +165,7 @@ pub fn parse_tokenizing(
         recognizer.begin_earleme();
         for &terminal in loaded.lexer_map.get(ch) {
             recognizer.scan(
-                recognizer.grammar().to_internal(terminal).unwrap(),
+                to_internal(recognizer.grammar(), terminal),
                 ch as u32,
             );
         }
-- 
2.43.0


From dfa562ffa2c532ccfd4c98ec8f7e460cc41c0bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 08/15] fix: DefaultGrammar::events returns the events of
 predictions and of medial items

The recognizer looks up predicted symbols in the first part and medial items in
the second; it was given the events of medial and of completed items.
---
 gearley-default-grammar/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index c2696e4..5ecb62c 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -687,7 +687,7 @@ impl Grammar for DefaultGrammar {
 
     #[inline]
     fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) {
-        (&self.columns[1].events[..], &self.columns[2].events[..])
+        (&self.columns[0].events[..], &self.columns[1].events[..])
     }
 
     #[inline]
-- 
2.43.0


From b76d92467df09f6b4402329a180120672ef61c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 09/15] fix: a grammar has a trivial derivation only if its
 start symbol is nullable

Any nullable symbol made the recognizer report a finished parse before input.
---
 gearley-default-grammar/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index 5ecb62c..cf8df0e 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -590,7 +590,8 @@ impl DefaultGrammar {
     }
 
     fn populate_nulling(&mut self, nulling: &Cfg) {
-        self.has_trivial_derivation = !nulling.is_empty();
+        let start = self.externalized_start_sym();
+        self.has_trivial_derivation = nulling.rules().any(|rule| rule.lhs == start);
         let iter_nulling_intermediate = nulling
             .rules()
             .filter_map(|rule| {
-- 
2.43.0


From 447f1b329409be6e74d7500e8fb1711daa813ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 10/15] fix: parse_terminal_list returns the parse error and
 its position

---
 gearley-utils/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-utils/src/parse.rs b/gearley-utils/src/parse.rs
index e1734c8..4aea79d 100644
--- a/gearley-utils/src/parse.rs
+++ b/gearley-utils/src/parse.rs
@@ -132,7 +132,7 @@ pub fn parse_terminal_list<'a>(
             });
         }
     }
-    let result = recognizer.parse(&tokens);
+    let result = recognizer.parse(&tokens)?;
     if let Some(node) = recognizer.finished_node() {
         trace!("utils.finished_node: NodeHandle {{ handle: {:?} }}", node);
     } else {
@@ -141,7 +141,7 @@ pub fn parse_terminal_list<'a>(
         });
     }
     trace!("utils.bocage: {:?}", recognizer.into_forest());
-    result
+    Ok(result)
 }
 
 pub fn parse_tokenizing(
-- 
2.43.0


From 57196591cbc1cf7fd32d1fbf2655c19cf68a41a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 11/15] fix: the only symbol of a rule is completed before the
 rule's LHS

---
 gearley-default-grammar/src/lib.rs | 46 ++++++++++++++++--------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index cf8df0e..d6e11fa 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -1,6 +1,6 @@
 #![forbid(unsafe_code)]
 
-use std::{cmp, iter};
+use std::iter;
 
 use bit_matrix::row::BitSlice;
 use bit_matrix::BitMatrix;
@@ -235,17 +235,19 @@ impl DefaultGrammar {
         let mut order = grammar.empty_matrix();
         for rule in grammar.rules() {
             if rule.rhs.len() == 1 {
-                let left = rule.lhs.usize();
-                let right = rule.rhs[0].usize();
-                match left.cmp(&right) {
-                    cmp::Ordering::Less => {
-                        order.set(left, right, true);
-                    }
-                    cmp::Ordering::Greater => {
-                        order.set(right, left, true);
-                    }
-                    cmp::Ordering::Equal => {}
-                }
+                // The completer takes the greatest symbol first. The only symbol of a rule has to
+                // be completed before its LHS.
+                order.set(rule.lhs.usize(), rule.rhs[0].usize(), true);
+            }
+        }
+        // Unit rules may lead to one another through gensyms, which come last in any case.
+        order.transitive_closure();
+        for gensym in gensyms.iter() {
+            for (dst, src) in (&mut *order)[gensym.usize()]
+                .iter_blocks_mut()
+                .zip(gensyms.bit_vec().blocks())
+            {
+                *dst &= src;
             }
         }
         assert_eq!(grammar.wrapped_roots().len(), 1);
@@ -266,16 +268,18 @@ impl DefaultGrammar {
         // We modify it so that if `A < B` and `B < C` then `A < C`
         order.transitive_closure();
         trace!("order_transitive_closure: {:?}", order);
+        // The order is partial, and unit rules may form a cycle. Counting the symbols that come before
+        // a symbol makes it total.
+        let syms = || SymbolSource::generate_fresh().take(grammar.num_syms());
+        let rank: Vec<usize> = syms()
+            .map(|sym| {
+                syms()
+                    .filter(|&other| order[(other, sym)] && !order[(sym, other)])
+                    .count()
+            })
+            .collect();
         let mut remap = Remap::new(grammar);
-        remap.reorder_symbols(|left, right| {
-            if order[(left, right)] {
-                cmp::Ordering::Less
-            } else if order[(right, left)] {
-                cmp::Ordering::Greater
-            } else {
-                cmp::Ordering::Equal
-            }
-        });
+        remap.reorder_symbols(|left, right| rank[left.usize()].cmp(&rank[right.usize()]));
         remap.remove_unused_symbols();
         remap.get_mapping()
     }
-- 
2.43.0


From a368e5642564ef4ea57c40330373c02928572505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:35 +0000
Subject: [PATCH 12/15] fix: the finished node of an unread recognizer is that
 of the internal start symbol

---
 compact-bocage/src/traverse.rs       | 6 ++++++
 gearley-recognizer/src/recognizer.rs | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index d1fec7b..a3eab17 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -71,6 +71,12 @@ impl Bocage {
                 },
                 _ => panic!("not found"),
             },
+            // nothing was read, not even sof
+            Node::NullingLeaf { symbol } => {
+                let mut start_results = vec![];
+                eval.nulling(symbol, &mut start_results);
+                return start_results;
+            }
             _ => panic!("not found"),
         };
 
diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index c98fe18..e8d9287 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -347,7 +347,9 @@ where
     /// Panics when the parse has not finished at the current location.
     pub fn finished_node(&self) -> Option<F::NodeRef> {
         if self.grammar.has_trivial_derivation() && self.earleme() == !0 {
-            Some(self.forest.nulling(self.grammar.externalized_start_sym()))
+            self.grammar
+                .to_internal(self.grammar.externalized_start_sym())
+                .map(|start| self.forest.nulling(start))
         } else {
             let has_dot_before_eof = |item: &&Item<_>| item.dot == self.grammar.dot_before_eof();
             let item_node = |item: &Item<_>| item.node;
-- 
2.43.0


From 804740a2086b58e42950f97809d3ebd4143013ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 13/15] fix: numbers of the example grammars have their decimal
 value

The recursion is to the left, as the action of these rules expects: the value so far times ten plus the digit.
---
 gearley-example-grammars/src/ambiguous_math/mod.rs   | 2 +-
 gearley-example-grammars/src/precedenced_math/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-example-grammars/src/ambiguous_math/mod.rs b/gearley-example-grammars/src/ambiguous_math/mod.rs
index a8bf976..ba86d2b 100644
--- a/gearley-example-grammars/src/ambiguous_math/mod.rs
+++ b/gearley-example-grammars/src/ambiguous_math/mod.rs
@@ -17,7 +17,7 @@ pub fn grammar() -> Cfg {
 
     for _ in 0..10 {
         let [sym] = bnf.sym();
-        bnf.rule(num).rhs([sym, num]).rhs([sym]);
+        bnf.rule(num).rhs([num, sym]).rhs([sym]);
     }
     bnf.set_roots([expr]);
     bnf
diff --git a/gearley-example-grammars/src/precedenced_math/mod.rs b/gearley-example-grammars/src/precedenced_math/mod.rs
index 1083043..8ef04f8 100644
--- a/gearley-example-grammars/src/precedenced_math/mod.rs
+++ b/gearley-example-grammars/src/precedenced_math/mod.rs
@@ -36,7 +36,7 @@ pub fn grammar() -> Cfg {
         .rhs([number]);
     for _ in 0..10 {
         let [sym] = bnf.sym();
-        bnf.rule(number).rhs([sym, number]).rhs(&[sym]);
+        bnf.rule(number).rhs([number, sym]).rhs(&[sym]);
     }
     bnf.set_roots([sum]);
     bnf
-- 
2.43.0


From 00fceb5fd802170bf0ee29b7cf7e829f801f8059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 14/15] fix: simple bocage forgets the summands of a sum that
 was never finished

---
 simple-bocage/src/bocage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple-bocage/src/bocage.rs b/simple-bocage/src/bocage.rs
index cd32548..7ad6867 100644
--- a/simple-bocage/src/bocage.rs
+++ b/simple-bocage/src/bocage.rs
@@ -113,7 +113,8 @@ impl Forest for Bocage {
 
     #[inline]
     fn begin_sum(&mut self) {
-        // nothing to do
+        // Summands of a sum that was begun and never finished don't belong to this one.
+        self.summand_count = 0;
     }
 
     #[inline]
-- 
2.43.0


From adda4b331f6ad97ee44b0606777c16e251d02a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:40 +0000
Subject: [PATCH 15/15] fix: a lookahead hint is for one location, also when
 completions are driven by hand

---
 gearley-recognizer/src/recognizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index e8d9287..3aae1bb 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -190,6 +190,8 @@ where
     /// the `completions` method. Keep in mind that calling this method may not set
     /// the finished node, which should be tracked externally.
     pub fn advance_after_completion(&mut self) {
+        // A hint is for one location, also when its completions are driven by hand.
+        self.lookahead.clear_hint();
         self.sort_medial_items();
         self.remove_unreachable_sets();
         if P::LEO {
-- 
2.43.0

