From abcd9972d4c9ec3f1a0b9e97fef19c1ab4ec52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 01/13] fix: compare the dot position of production states

Two states of one production at different positions compared equal, so the
Earley item sets merged them and parsing any grammar with a left-recursive
binary production (expr => expr + expr), or a cyclic one, panicked.
---
 src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 514d43d..9f495cb 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -50,7 +50,10 @@ where
   NT: Ord,
 {
   fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-    self.prod.cmp(&other.prod)
+    self
+      .prod
+      .cmp(&other.prod)
+      .then_with(|| self.index.cmp(&other.index))
   }
 }
 
@@ -68,7 +71,7 @@ where
   NT: Ord,
 {
   fn eq(&self, other: &Self) -> bool {
-    self.prod == other.prod
+    self.prod == other.prod && self.index == other.index
   }
 }
 
-- 
2.43.0


From 93e6226a8b8635f5f92f06c4d86f4e76311306b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 02/13] fix: VecTokenStream::next yields the tokens of the
 stream

The bounds test was reversed, so next() panicked on every non-empty stream.
---
 src/parsers/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 38b95f5..a72b8ed 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -58,7 +58,7 @@ where
   T: Clone,
 {
   fn next(&self) -> Option<(Token<K, T>, Self)> {
-    if self.tokens.len() < self.position {
+    if self.position < self.tokens.len() {
       Some((
         self.tokens[self.position].clone(),
         VecTokenStream {
-- 
2.43.0


From 744d2eae6c2ad642f6e21ec99e9f1c8b94a09902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 03/13] fix: breadth_first_search counts its initial items as
 reached

The initial items were missing from the result, so a start nonterminal that is
only mentioned by an unrelated rule was reported as unreachable.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3d8c999..c181696 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -160,7 +160,7 @@ where
 {
   let mut next_set = BTreeSet::new();
   let mut curr_set: BTreeSet<_> = initial.into_iter().collect();
-  let mut seen_set = next_set.clone();
+  let mut seen_set = curr_set.clone();
 
   while !curr_set.is_empty() {
     for next_item in &curr_set {
-- 
2.43.0


From f5be1136e82e93dff06644e5cc374a6eb497ecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 04/13] fix: report nonterminals without rules instead of
 panicking

Building a grammar whose start symbol, or any nonterminal reachable from it,
has no rule panicked while computing reachability, so the error meant for this
case was never returned.
---
 src/grammar/base.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index f299357..01e1ca5 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -424,6 +424,7 @@ where
   fn nonterminals_without_rules(&self) -> BTreeSet<&NT> {
     self
       .get_nonterminals()
+      .chain(std::iter::once(&self.start_symbol))
       .filter(move |nt| !self.rule_set.contains_key(nt))
       .collect()
   }
@@ -440,8 +441,9 @@ where
   fn reachable_nonterms(&self) -> BTreeSet<&NT> {
     breadth_first_search(std::iter::once(&self.start_symbol), |nt| {
       self
-        .get_rule(nt)
-        .prods()
+        .try_get_rule(nt)
+        .into_iter()
+        .flat_map(|rule| rule.prods())
         .flat_map(|p| p.elements())
         .filter_map(|e| e.as_nonterm())
         .collect::<BTreeSet<_>>()
-- 
2.43.0


From 19f1293e0de524be9704f22f8444eb1d6f7d3c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 05/13] fix: report unreachable rules that no production
 mentions

Only nonterminals mentioned in some production body were tested for
reachability, so a rule nothing refers to was accepted silently.
---
 src/grammar/base.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index 01e1ca5..43ac720 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -454,6 +454,7 @@ where
     let reachable_nonterms = self.reachable_nonterms();
     self
       .get_nonterminals()
+      .chain(self.rule_set.keys())
       .filter(|nt| !reachable_nonterms.contains(nt))
       .collect()
   }
-- 
2.43.0


From 25fdce99a53b80a01207b322e46072081f489cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 06/13] fix: keep every production when a rule is added in
 several parts

Adding a second rule with the same head silently discarded the productions
added before it.
---
 src/grammar/base.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index 43ac720..8b98c17 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -18,7 +18,7 @@ mod element_types;
 
 use {
   crate::utils::{breadth_first_search, Name, ToDoc},
-  std::collections::{BTreeMap, BTreeSet},
+  std::collections::{btree_map, BTreeMap, BTreeSet},
 };
 
 use std::fmt::Debug;
@@ -386,12 +386,21 @@ where
     start: NT,
     rule_set: impl IntoIterator<Item = RuleInner<T, NT, AK, AV>>,
   ) -> Result<Self, GrammarErrors<NT>> {
+    let mut rules: BTreeMap<NT, RuleInner<T, NT, AK, AV>> = BTreeMap::new();
+    for rule in rule_set {
+      match rules.entry(rule.head().clone()) {
+        btree_map::Entry::Vacant(vac) => {
+          vac.insert(rule);
+        }
+        btree_map::Entry::Occupied(mut occ) => {
+          occ.get_mut().prods.extend(rule.prods);
+        }
+      }
+    }
+
     let g = Grammar {
       start_symbol: start,
-      rule_set: rule_set
-        .into_iter()
-        .map(|r| (r.head().clone(), r))
-        .collect(),
+      rule_set: rules,
     };
 
     g.check_grammar().map(|_| g)
-- 
2.43.0


From d58507213fd6621919aa4199b43a74234bf3f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 07/13] fix: a failed pass does not turn later requests into
 recursion panics

The in-process marker stayed in the pass map when a pass returned an error, so
asking for that pass again panicked with a recursion message.
---
 src/grammar/passes/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/grammar/passes/mod.rs b/src/grammar/passes/mod.rs
index 3b49a86..f13d7e9 100644
--- a/src/grammar/passes/mod.rs
+++ b/src/grammar/passes/mod.rs
@@ -109,7 +109,12 @@ impl<'a, T, NT, AK, AV> PassContext<'a, T, NT, AK, AV> {
         let mut guard = self.passes.borrow_mut();
         guard.insert(pass_type, Rc::new(NoCurrentValue));
       }
-      let value = P::run_pass(self)?;
+      let value = P::run_pass(self).map_err(|err| {
+        // The pass is no longer in process: a later request must see its error
+        // again, and not be mistaken for a recursive one.
+        self.passes.borrow_mut().remove(&pass_type);
+        err
+      })?;
       let mut guard = self.passes.borrow_mut();
       guard.insert(pass_type, Rc::new(value));
     };
-- 
2.43.0


From 22330ee836c3b947729d6768cd99f675501de637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 08/13] fix: parse returns None on a token no production
 accepts

The empty item set reached the assertion in close_state, so rejecting an input
panicked unless the input was a proper prefix of a sentence.
---
 src/parsers/earley.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/earley.rs b/src/parsers/earley.rs
index c7a1fa2..f8d37a9 100644
--- a/src/parsers/earley.rs
+++ b/src/parsers/earley.rs
@@ -77,6 +77,10 @@ where
 
   for token in tokens {
     let mut new_state = states.last().unwrap().shift(tree_handle, &token);
+    if new_state.is_empty() {
+      // No production can continue with this token.
+      return None;
+    }
 
     close_state(grammar, tree_handle, &states, &mut new_state);
 
-- 
2.43.0


From 79c3140d3e8cf9b4966dfed969146fc721b8e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 09/13] fix: include the root node in the rendered parse tree

The node passed to to_dot was missing from the graph, along with the edges to
its alternatives, unless some production led back to it.
---
 src/parsers/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 85963f7..5eb6e51 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -595,6 +595,7 @@ where
   let mut curr = BTreeSet::new();
   let mut next = BTreeSet::new();
 
+  seen.insert(DotNode::Node(node.index));
   curr.insert(DotNode::Node(node.index));
 
   while !curr.is_empty() {
-- 
2.43.0


From 17486fde2e9d38d64ea1320709828ca5d9dd62ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 10/13] fix: apply_fixed_point moves on to the changed keys

The work list was never replaced by the keys changed in a round, so the loop
did not end for any non-empty map.
---
 src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index c181696..1696343 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -372,7 +372,7 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
 ) where
   K: Clone + Ord,
 {
-  let currs = target.keys().cloned().collect::<BTreeSet<_>>();
+  let mut currs = target.keys().cloned().collect::<BTreeSet<_>>();
   let mut nexts = BTreeSet::new();
 
   while !currs.is_empty() {
@@ -395,5 +395,8 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
         }
       }
     }
+
+    std::mem::swap(&mut currs, &mut nexts);
+    nexts.clear();
   }
 }
-- 
2.43.0


From 74654290a42fa9531851ef45a629bc1bf4117461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 11/13] fix: do not lock the tree while it is locked

make_branch_alt ran the caller's node iterator with the tree read-locked, so an
iterator that made nodes deadlocked, and comparing handles took the same read
lock twice, which deadlocks when another thread is waiting to write.
---
 src/parsers/tree.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 5eb6e51..a46f2bb 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -327,16 +327,14 @@ where
     action: AK,
     nodes: impl IntoIterator<Item = Node<'a, T, AK, V>>,
   ) -> Alternative<T, AK, V> {
-    let node_indexes = self.with(|inner| {
-      nodes
-        .into_iter()
-        .inspect(|n| {
-          // Check that all nodes are coming from the same inner instance.
-          assert!(n.inner.with(|n_inner| { inner.is_same(n_inner) }));
-        })
-        .map(|n| n.index)
-        .collect()
-    });
+    let node_indexes = nodes
+      .into_iter()
+      .inspect(|n| {
+        // Check that all nodes are coming from the same inner instance.
+        assert!(self.is_same(&n.inner));
+      })
+      .map(|n| n.index)
+      .collect();
 
     self.make_alt(NodeContentInner::Branch(BranchData {
       action,
@@ -345,9 +343,7 @@ where
   }
 
   pub fn is_same(&self, other: &Self) -> bool {
-    self.with(|self_inner| {
-      other.with(|other_inner| self_inner.is_same(other_inner))
-    })
+    std::ptr::eq(self.0, other.0)
   }
 }
 
-- 
2.43.0


From 111abe0d03472a1bfc514fda547c3843d4862d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 12/13] fix: keep the non-null cases of nullable productions

transform_to_nonnull dropped every production that could be empty, and not only
its empty case, which lost sentences or made the whole transform fail. The
module documentation's own example (q := p p, p := A | empty) failed.
---
 src/grammar/transform/nonnull.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/transform/nonnull.rs b/src/grammar/transform/nonnull.rs
index cb2a15b..442a061 100644
--- a/src/grammar/transform/nonnull.rs
+++ b/src/grammar/transform/nonnull.rs
@@ -123,10 +123,6 @@ where
     for (nt, rule) in g.rule_set() {
       g_builder.add_rule(nt.clone(), |r_builder| {
         for prod in rule.prods() {
-          if nullable.is_prod_nullable(&prod) {
-            continue;
-          }
-
           build_nonnull_prods(nullable.get_nullable_info(), &prod, r_builder);
         }
       });
@@ -202,6 +198,11 @@ fn build_nonnull_prods<T, NT, AK, AV>(
   }
 
   for curr_build_state in curr_build_states {
+    if curr_build_state.elems.is_empty() {
+      // Nothing is left of the production: this is its null case.
+      continue;
+    }
+
     let prev_action_value = prod.action_value();
 
     let new_action_key = ActionKey {
-- 
2.43.0


From ed2e3185f690a536dc24f0f7b5eec08374d8795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 13/13] fix: follow sets look past nullable elements

Only the element directly after a nonterminal was considered, so what follows a
nullable element was missing, and a nonterminal that only derives the empty
sentence has no first set and panicked.
---
 src/grammar/passes/follows.rs | 43 ++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index d560aca..1cd11b5 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -4,6 +4,7 @@ use crate::utils::{change_iter, change_loop, WasChanged};
 use crate::{grammar::Elem, utils::CollectMap};
 
 use super::firsts::{Firsts, FirstsError};
+use super::nullable::Nullable;
 use super::Pass;
 
 #[derive(thiserror::Error, Debug)]
@@ -27,6 +28,9 @@ where
   ) -> Result<Self, FollowsError> {
     let gram = pass_map.grammar();
 
+    let nullables = pass_map
+      .get_pass::<Nullable<NT, AK>>()
+      .map_err(FirstsError::from)?;
     let firsts = pass_map.get_pass::<Firsts<T, NT>>()?;
 
     let mut follows = CollectMap::new();
@@ -35,20 +39,37 @@ where
       change_iter(gram.prods(), |prod| {
         let mut changed = WasChanged::Unchanged;
         let elems = prod.elements().collect::<Vec<_>>();
-        for elem_pair in elems.windows(2) {
-          if let Elem::NonTerm(first_nt) = elem_pair[0] {
-            match elem_pair[1] {
-              Elem::Term(t) => changed.merge(follows.insert(first_nt, t)),
-              Elem::NonTerm(second_nt) => changed.merge(
-                follows
-                  .insert_iter(first_nt, firsts.get(second_nt).unwrap().iter()),
-              ),
+        for (index, elem) in elems.iter().enumerate() {
+          let first_nt = match elem {
+            Elem::NonTerm(nt) => nt,
+            Elem::Term(_) => continue,
+          };
+
+          // Everything after this element up to the first element that can
+          // not be empty may start what follows it.
+          let mut rest_nullable = true;
+          for next_elem in &elems[index + 1..] {
+            match next_elem {
+              Elem::Term(t) => {
+                changed.merge(follows.insert(first_nt, t));
+                rest_nullable = false;
+              }
+              Elem::NonTerm(second_nt) => {
+                changed.merge(follows.insert_iter(
+                  first_nt,
+                  firsts.get(second_nt).into_iter().flatten(),
+                ));
+                rest_nullable = nullables.is_nullable(second_nt);
+              }
+            }
+            if !rest_nullable {
+              break;
             }
           }
-        }
 
-        if let Some(Elem::NonTerm(last_nt)) = elems.last() {
-          changed.merge(follows.insert_from_key_set(last_nt, prod.head()));
+          if rest_nullable {
+            changed.merge(follows.insert_from_key_set(first_nt, prod.head()));
+          }
         }
 
         changed
-- 
2.43.0

