From 2538f5ab579e31302dc7586401ead79dca19250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:06 +0000
Subject: [PATCH 1/9] fix: do not leak an unshared root in to_next_sibling

The handle was forgotten before the early return for a missing parent, so
calling to_next_sibling (or to_next_sibling_or_token) on an unshared root
leaked its NodeData and the whole green tree.
---
 src/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 1288620..881f9d1 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -766,11 +766,11 @@ impl SyntaxNode {
             return self.next_sibling();
         }
 
+        let parent = self.parent()?;
         let mut ptr = self.take_ptr();
         let data = unsafe { ptr.as_mut() };
         assert!(data.rc.get() == 1);
 
-        let parent = data.parent_node()?;
         let parent_offset = parent.offset();
         let siblings = parent.green_ref().children().raw.enumerate();
         let index = data.index() as usize;
@@ -1206,10 +1206,10 @@ impl SyntaxElement {
             return self.next_sibling_or_token();
         }
 
+        let parent = self.parent()?;
         let mut ptr = self.take_ptr();
         let data = unsafe { ptr.as_mut() };
 
-        let parent = data.parent_node()?;
         let parent_offset = parent.offset();
         let siblings = parent.green_ref().children().raw.enumerate();
         let index = data.index() as usize;
-- 
2.43.0


From a9164e6ccd48d28f9e1f7db04274fdd843b32d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:09 +0000
Subject: [PATCH 2/9] fix: check the insertion index before touching the tree

splice_children with an index past the end panicked in the middle of
attach_child: the child was already linked and had given up its green
element, so using the tree after catching the panic was a use after free.
---
 src/cursor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index 881f9d1..422ded9 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -491,6 +491,7 @@ impl NodeData {
     fn attach_child(&self, index: usize, child: &NodeData) {
         assert!(self.mutable && child.mutable && child.parent().is_none());
         assert!(self.rc.get() > 0 && child.rc.get() > 0);
+        assert!(self.green().into_node().is_some_and(|it| index <= it.children().len()));
 
         child.index.set(index as u32);
         child.parent.set(Some(self.into()));
-- 
2.43.0


From 2ebcf2992b6d232af2d284bd0def837a24ba6676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 3/9] fix: keep iterating over children after detaching one

The children iterators looked for the sibling of the last yielded child
only when asked for the next one, so `for c in node.children() { c.detach() }`
stopped after the first child, and so did the deletion in splice_children.
---
 src/cursor.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 422ded9..3b18c99 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1390,10 +1390,15 @@ impl Iterator for SyntaxNodeChildren {
         if !self.next_initialized {
             self.next = self.parent.first_child();
             self.next_initialized = true;
-        } else {
+        } else if !self.parent.is_mutable() {
             self.next = self.next.take().and_then(|next| next.to_next_sibling());
         }
 
+        if self.parent.is_mutable() {
+            // The caller might detach the child, so find its sibling now.
+            return self.next.take().inspect(|it| self.next = it.next_sibling());
+        }
+
         self.next.clone()
     }
 }
@@ -1452,10 +1457,15 @@ impl Iterator for SyntaxElementChildren {
         if !self.next_initialized {
             self.next = self.parent.first_child_or_token();
             self.next_initialized = true;
-        } else {
+        } else if !self.parent.is_mutable() {
             self.next = self.next.take().and_then(|next| next.to_next_sibling_or_token());
         }
 
+        if self.parent.is_mutable() {
+            // The caller might detach the child, so find its sibling now.
+            return self.next.take().inspect(|it| self.next = it.next_sibling_or_token());
+        }
+
         self.next.clone()
     }
 }
-- 
2.43.0


From 0d4306c284b257e2e2b7e383a6254b4f015cf7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:15 +0000
Subject: [PATCH 4/9] fix: do not yield a child twice after
 children().by_kind()

Calling by_kind on a partially consumed children iterator of an immutable
tree returned the last yielded child once more.
---
 src/cursor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 3b18c99..7d9ac70 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1372,7 +1372,8 @@ impl SyntaxNodeChildren {
         } else {
             SyntaxNodeChildrenByKind {
                 next: self.next.and_then(|node| {
-                    if matcher(node.kind()) {
+                    // In an immutable tree, `next` was already yielded.
+                    if self.parent.is_mutable() && matcher(node.kind()) {
                         Some(node)
                     } else {
                         node.next_sibling_by_kind(&matcher)
@@ -1439,7 +1440,8 @@ impl SyntaxElementChildren {
         } else {
             SyntaxElementChildrenByKind {
                 next: self.next.and_then(|node| {
-                    if matcher(node.kind()) {
+                    // In an immutable tree, `next` was already yielded.
+                    if self.parent.is_mutable() && matcher(node.kind()) {
                         Some(node)
                     } else {
                         node.next_sibling_or_token_by_kind(&matcher)
-- 
2.43.0


From 078cb52d911ea735e8106503e38b1c2aaa392bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 5/9] fix: step over childless nodes when looking for a token

first_token, last_token, next_token and prev_token returned None when the
first element they met was a node without tokens, although the tree has
tokens further on.
---
 src/cursor.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 7d9ac70..a3843b5 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -825,10 +825,11 @@ impl SyntaxNode {
     }
 
     pub fn first_token(&self) -> Option<SyntaxToken> {
-        self.first_child_or_token()?.first_token()
+        self.children_with_tokens().find_map(|it| it.first_token())
     }
     pub fn last_token(&self) -> Option<SyntaxToken> {
-        self.last_child_or_token()?.last_token()
+        iter::successors(self.last_child_or_token(), |it| it.prev_sibling_or_token())
+            .find_map(|it| it.last_token())
     }
 
     #[inline]
@@ -1087,22 +1088,20 @@ impl SyntaxToken {
     }
 
     pub fn next_token(&self) -> Option<SyntaxToken> {
-        match self.next_sibling_or_token() {
-            Some(element) => element.first_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.next_sibling_or_token())
-                .and_then(|element| element.first_token()),
-        }
+        iter::once(self.clone().into()).chain(self.ancestors().map(SyntaxElement::from)).find_map(
+            |it| {
+                iter::successors(it.next_sibling_or_token(), |it| it.next_sibling_or_token())
+                    .find_map(|it| it.first_token())
+            },
+        )
     }
     pub fn prev_token(&self) -> Option<SyntaxToken> {
-        match self.prev_sibling_or_token() {
-            Some(element) => element.last_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.prev_sibling_or_token())
-                .and_then(|element| element.last_token()),
-        }
+        iter::once(self.clone().into()).chain(self.ancestors().map(SyntaxElement::from)).find_map(
+            |it| {
+                iter::successors(it.prev_sibling_or_token(), |it| it.prev_sibling_or_token())
+                    .find_map(|it| it.last_token())
+            },
+        )
     }
 
     pub fn detach(&self) {
-- 
2.43.0


From 6dbe02509ef8cfe28dd02f963aabb7f5a750ad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 6/9] fix: resolve pointers to empty nodes

Several children can touch an empty range, but try_to_node followed only
one of them, so a pointer to an empty node could not be resolved in the
very tree it was made from.
---
 src/ast.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 292dba9..03745f2 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -20,7 +20,7 @@ use std::{
     marker::PhantomData,
 };
 
-use crate::{Language, SyntaxNode, SyntaxNodeChildren, TextRange};
+use crate::{Language, SyntaxNode, SyntaxNodeChildren, TextRange, WalkEvent};
 
 /// The main trait to go from untyped [`SyntaxNode`] to a typed AST. The
 /// conversion itself has zero runtime cost: AST and syntax nodes have exactly
@@ -100,8 +100,27 @@ impl<L: Language> SyntaxNodePtr<L> {
         if root.parent().is_some() {
             return None;
         }
-        successors(Some(root.clone()), |node| node.child_or_token_at_range(self.range)?.into_node())
-            .find(|it| it.text_range() == self.range && it.kind() == self.kind)
+        let found = successors(Some(root.clone()), |node| {
+            node.child_or_token_at_range(self.range)?.into_node()
+        })
+        .find(|it| it.text_range() == self.range && it.kind() == self.kind);
+        if found.is_some() || !self.range.is_empty() {
+            return found;
+        }
+
+        // Several children can touch an empty range, look into each of them.
+        let mut preorder = root.preorder();
+        while let Some(event) = preorder.next() {
+            let WalkEvent::Enter(node) = event else { continue };
+            let range = node.text_range();
+            if range == self.range && node.kind() == self.kind {
+                return Some(node);
+            }
+            if !range.contains_range(self.range) {
+                preorder.skip_subtree();
+            }
+        }
+        None
     }
 
     /// Casts this to an [`AstPtr`] to the given node type if possible.
-- 
2.43.0


From 262fba3124459e52fa2c25e7b1354e2779c8a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:38 +0000
Subject: [PATCH 7/9] fix: refuse to attach a node below itself

splice_children given an ancestor of the node (or the node itself) made a
cycle of parents and then replaced green nodes along it until memory ran out.
---
 src/cursor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index a3843b5..7dd8061 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -966,11 +966,15 @@ impl SyntaxNode {
 
     fn attach_child(&self, index: usize, child: SyntaxElement) {
         assert!(self.data().mutable, "immutable tree: {}", self);
-        child.detach();
         let data = match &child {
             NodeOrToken::Node(it) => it.data(),
             NodeOrToken::Token(it) => it.data(),
         };
+        assert!(
+            iter::successors(Some(self.data()), |it| it.parent()).all(|it| !ptr::eq(it, data)),
+            "cannot attach a node below itself"
+        );
+        child.detach();
         self.data().attach_child(index, data)
     }
 }
-- 
2.43.0


From 0bb3ec4b3b227f3770d7f1f622cd7dbd7a2ad7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:19 +0000
Subject: [PATCH 8/9] fix: keep lookups by kind sound when the matcher changes
 the tree

The lookups by kind borrow the green children while calling the matcher,
which is code of the caller and may detach elements of a mutable tree: the
children were freed under the iteration. Step through handles instead.
---
 src/cursor.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index 7dd8061..21a46de 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -387,6 +387,11 @@ impl NodeData {
     }
 
     fn next_sibling_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
+        if self.mutable {
+            // `matcher` might change the tree.
+            return iter::successors(self.next_sibling(), SyntaxNode::next_sibling)
+                .find(|it| matcher(it.kind()));
+        }
         let siblings = self.green_siblings().enumerate();
         let index = self.index() as usize;
 
@@ -430,6 +435,14 @@ impl NodeData {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
+        if self.mutable {
+            // `matcher` might change the tree.
+            return iter::successors(
+                self.next_sibling_or_token(),
+                SyntaxElement::next_sibling_or_token,
+            )
+            .find(|it| matcher(it.kind()));
+        }
         let siblings = self.green_siblings().enumerate();
         let index = self.index() as usize;
 
@@ -697,6 +710,11 @@ impl SyntaxNode {
     }
 
     pub fn first_child_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
+        if self.data().mutable {
+            // `matcher` might change the tree.
+            return iter::successors(self.first_child(), SyntaxNode::next_sibling)
+                .find(|it| matcher(it.kind()));
+        }
         self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
             if !matcher(child.as_ref().kind()) {
                 return None;
@@ -735,6 +753,14 @@ impl SyntaxNode {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
+        if self.data().mutable {
+            // `matcher` might change the tree.
+            return iter::successors(
+                self.first_child_or_token(),
+                SyntaxElement::next_sibling_or_token,
+            )
+            .find(|it| matcher(it.kind()));
+        }
         self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
             if !matcher(child.as_ref().kind()) {
                 return None;
-- 
2.43.0


From b21ccb9259504af76a6b8d7ca9ef1aeb6205c594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:45 +0000
Subject: [PATCH 9/9] fix: handles to different empty elements sharing a green
 element are not equal

---
 src/cursor.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 21a46de..ad44ab5 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -297,6 +297,28 @@ impl NodeData {
         rc == 0
     }
 
+    /// Whether both denote the same element. Elements without text might share
+    /// the green element and the offset, so look at the way to them as well.
+    fn is_same(&self, other: &NodeData) -> bool {
+        let (mut lhs, mut rhs) = (self, other);
+        loop {
+            if lhs.key() != rhs.key() {
+                return false;
+            }
+            if lhs.green().text_len() != TextSize::from(0) {
+                return true;
+            }
+            match (lhs.parent(), rhs.parent()) {
+                (Some(lhs_parent), Some(rhs_parent)) if lhs.index() == rhs.index() => {
+                    lhs = lhs_parent;
+                    rhs = rhs_parent;
+                }
+                (None, None) => return true,
+                _ => return false,
+            }
+        }
+    }
+
     #[inline]
     fn key(&self) -> (ptr::NonNull<()>, TextSize) {
         let ptr = match &self.green {
@@ -1309,7 +1331,7 @@ impl SyntaxElement {
 impl PartialEq for SyntaxNode {
     #[inline]
     fn eq(&self, other: &SyntaxNode) -> bool {
-        self.data().key() == other.data().key()
+        self.data().is_same(other.data())
     }
 }
 
@@ -1346,7 +1368,7 @@ impl fmt::Display for SyntaxNode {
 impl PartialEq for SyntaxToken {
     #[inline]
     fn eq(&self, other: &SyntaxToken) -> bool {
-        self.data().key() == other.data().key()
+        self.data().is_same(other.data())
     }
 }
 
-- 
2.43.0

