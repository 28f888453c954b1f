From 427959dcf8ebe803ddfdb7b0f5c07ccad6c648c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 01/28] fix: resolve positions in a root without content
 instead of panicking

---
 src/model/resolved_pos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index 00d8fa2..68b76f7 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -200,7 +200,7 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
     }
 
     pub(crate) fn resolve(doc: &'a S::Node, pos: usize) -> Result<Self, ResolveErr> {
-        if pos > doc.content().unwrap().size() {
+        if pos > doc.content_size() {
             return Err(ResolveErr::RangeError { pos });
         }
         let mut path = vec![];
-- 
2.43.0


From 7fdf9de2e077cb84e998733e81095a7075e1d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 02/28] fix: refuse positions inside a surrogate pair

---
 src/model/resolved_pos.rs |  7 +++++--
 src/model/util.rs         | 12 ++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index 68b76f7..79d6ef0 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -1,4 +1,4 @@
-use super::{fragment::IndexError, Fragment, Node, Schema};
+use super::{fragment::IndexError, util, Fragment, Node, Schema};
 use derivative::Derivative;
 use displaydoc::Display;
 use std::borrow::Cow;
@@ -223,7 +223,10 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
                 break;
             }
             node = node.child(index).unwrap();
-            if node.is_text() {
+            if let Some(text_node) = node.text_node() {
+                if !util::is_boundary_utf16(text_node.text.as_str(), rem) {
+                    return Err(ResolveErr::RangeError { pos });
+                }
                 break;
             }
             parent_offset = rem - 1;
diff --git a/src/model/util.rs b/src/model/util.rs
index 197cc86..a3cd5b4 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -16,6 +16,18 @@ pub fn to<R: RangeBounds<usize>>(range: &R, max: usize) -> usize {
     }
 }
 
+/// Whether the UTF-16 offset lies between two characters (and not inside a surrogate pair)
+pub(crate) fn is_boundary_utf16(text: &str, index: usize) -> bool {
+    let mut rest = index;
+    for c in text.chars() {
+        if rest < c.len_utf16() {
+            break;
+        }
+        rest -= c.len_utf16();
+    }
+    rest == 0
+}
+
 pub fn split_at_utf16(text: &str, mut index: usize) -> (&str, &str) {
     let mut iter = text.chars();
     while index > 0 {
-- 
2.43.0


From b9b864de472129a45df92f1934b79655d50654fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 03/28] fix: end an unbounded slice or replace at the end of
 the content

---
 src/model/node.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index 80869ac..a11a51e 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -121,7 +121,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         include_parents: bool,
     ) -> Result<Slice<S>, SliceError> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
+        let to = util::to(&range, self.content_size());
 
         if from == to {
             return Ok(Slice::default());
@@ -160,8 +160,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         slice: &Slice<S>,
     ) -> Result<Self, ReplaceError<S>> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
-        // FIXME: this max value is my guess, that needs to be tested out
+        let to = util::to(&range, self.content_size());
 
         assert!(to >= from, "replace: {} >= {}", to, from);
 
-- 
2.43.0


From 232dcfd3e503133e401916ebe71f3878ff0581ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 04/28] fix: do not overflow on range bounds at the largest
 position

---
 src/model/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/util.rs b/src/model/util.rs
index a3cd5b4..f156680 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -4,14 +4,14 @@ pub fn from<R: RangeBounds<usize>>(range: &R) -> usize {
     match range.start_bound() {
         Bound::Unbounded => 0,
         Bound::Included(x) => *x,
-        Bound::Excluded(x) => x + 1,
+        Bound::Excluded(x) => x.saturating_add(1),
     }
 }
 
 pub fn to<R: RangeBounds<usize>>(range: &R, max: usize) -> usize {
     match range.end_bound() {
         Bound::Unbounded => max,
-        Bound::Included(x) => x + 1,
+        Bound::Included(x) => x.saturating_add(1),
         Bound::Excluded(x) => *x,
     }
 }
-- 
2.43.0


From 7dcd7b125326b18a8a8486b97fcc4906a3a819ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 05/28] fix: refuse to replace a reversed range instead of
 panicking

---
 src/model/node.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index a11a51e..6a09b22 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -162,7 +162,9 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         let from = util::from(&range);
         let to = util::to(&range, self.content_size());
 
-        assert!(to >= from, "replace: {} >= {}", to, from);
+        if to < from {
+            return Err(ResolveErr::RangeError { pos: to }.into());
+        }
 
         let rp_from = self.resolve(from)?;
         let rp_to = self.resolve(to)?;
-- 
2.43.0


From a4ac97c45ba3bf6fc2763d692bdbe5247080ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 06/28] fix: refuse slices open deeper at the end than the
 position they end at

---
 src/model/replace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 7986df4..6f989d8 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -140,7 +140,7 @@ pub(crate) fn replace<S: Schema>(
 ) -> Result<S::Node, ReplaceError<S>> {
     if slice.open_start > rp_from.depth {
         Err(ReplaceError::InsertTooDeep)
-    } else if rp_from.depth - slice.open_start != rp_to.depth - slice.open_end {
+    } else if Some(rp_from.depth - slice.open_start) != rp_to.depth.checked_sub(slice.open_end) {
         Err(ReplaceError::InconsistentOpenDepths {
             from_depth: rp_from.depth,
             open_start: slice.open_start,
-- 
2.43.0


From cece2d417070fc76bd6d0b335fb69ce234fddaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 07/28] fix: refuse slices whose content is not as deep as
 their open depths

---
 src/model/replace.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 6f989d8..8272ce0 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -45,6 +45,19 @@ impl<S: Schema> Slice<S> {
         }
     }
 
+    /// Whether there are nodes of the open depths at both sides of the content. An empty slice
+    /// opens nothing, whatever its open depths are.
+    fn has_open_nodes(&self) -> bool {
+        let (mut start, mut end) = (Some(&self.content), Some(&self.content));
+        for _ in 0..self.open_start {
+            start = start.and_then(Fragment::first_child).and_then(Node::content);
+        }
+        for _ in 0..self.open_end {
+            end = end.and_then(Fragment::last_child).and_then(Node::content);
+        }
+        self.content.size() == 0 || (start.is_some() && end.is_some())
+    }
+
     pub(crate) fn insert_at(
         &self,
         pos: usize,
@@ -140,7 +153,9 @@ pub(crate) fn replace<S: Schema>(
 ) -> Result<S::Node, ReplaceError<S>> {
     if slice.open_start > rp_from.depth {
         Err(ReplaceError::InsertTooDeep)
-    } else if Some(rp_from.depth - slice.open_start) != rp_to.depth.checked_sub(slice.open_end) {
+    } else if Some(rp_from.depth - slice.open_start) != rp_to.depth.checked_sub(slice.open_end)
+        || !slice.has_open_nodes()
+    {
         Err(ReplaceError::InconsistentOpenDepths {
             from_depth: rp_from.depth,
             open_start: slice.open_start,
-- 
2.43.0


From d4f7e3cc4e59a8fd77126b2f96bb974fd3fd948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 08/28] fix: do not overflow on the insert position of a
 replace-around step

---
 src/model/replace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 8272ce0..e3c7050 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -63,7 +63,10 @@ impl<S: Schema> Slice<S> {
         pos: usize,
         fragment: Fragment<S>,
     ) -> Result<Option<Slice<S>>, InsertError> {
-        let content = insert_into(&self.content, pos + self.open_start, fragment, None)?;
+        let dist = pos
+            .checked_add(self.open_start)
+            .ok_or(IndexError::OutOfBounds(pos))?;
+        let content = insert_into(&self.content, dist, fragment, None)?;
         Ok(content.map(|c| Slice::<S>::new(c, self.open_start, self.open_end)))
     }
 }
-- 
2.43.0


From bce08a873973dcfc2811af679dd17e9567e1cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 09/28] fix: refuse to insert a gap inside a surrogate pair

---
 src/model/replace.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index e3c7050..22cfba9 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -1,4 +1,4 @@
-use super::{fragment::IndexError, Index};
+use super::{fragment::IndexError, util, Index};
 use crate::model::{ContentMatchError, Fragment, Node, NodeType, ResolveErr, ResolvedPos, Schema};
 use crate::util::EitherOrBoth;
 use derivative::Derivative;
@@ -88,6 +88,11 @@ fn insert_into<S: Schema>(
 ) -> Result<Option<Fragment<S>>, InsertError> {
     let Index { index, offset } = content.find_index(dist, false)?;
     let child = content.maybe_child(index);
+    if let Some(text_node) = child.and_then(Node::text_node) {
+        if !util::is_boundary_utf16(text_node.text.as_str(), dist - offset) {
+            return Err(IndexError::OutOfBounds(dist).into());
+        }
+    }
     if offset == dist || matches!(child, Some(c) if c.is_text()) {
         if let Some(p) = parent {
             if !p.can_replace(index, index, Some(&insert), ..)? {
-- 
2.43.0


From e2810b4fd6979365760e77ce9e5d24543fdeeced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 10/28] fix: refuse a gap that does not fit into the node it is
 inserted in

---
 src/model/replace.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 22cfba9..f038ae0 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -50,7 +50,9 @@ impl<S: Schema> Slice<S> {
     fn has_open_nodes(&self) -> bool {
         let (mut start, mut end) = (Some(&self.content), Some(&self.content));
         for _ in 0..self.open_start {
-            start = start.and_then(Fragment::first_child).and_then(Node::content);
+            start = start
+                .and_then(Fragment::first_child)
+                .and_then(Node::content);
         }
         for _ in 0..self.open_end {
             end = end.and_then(Fragment::last_child).and_then(Node::content);
@@ -66,7 +68,12 @@ impl<S: Schema> Slice<S> {
         let dist = pos
             .checked_add(self.open_start)
             .ok_or(IndexError::OutOfBounds(pos))?;
-        let content = insert_into(&self.content, dist, fragment, None)?;
+        // The content itself is always open
+        let open = (
+            self.open_start.saturating_add(1),
+            self.open_end.saturating_add(1),
+        );
+        let content = insert_into(&self.content, dist, fragment, open, None)?;
         Ok(content.map(|c| Slice::<S>::new(c, self.open_start, self.open_end)))
     }
 }
@@ -84,6 +91,7 @@ fn insert_into<S: Schema>(
     content: &Fragment<S>,
     dist: usize,
     insert: Fragment<S>,
+    (open_start, open_end): (usize, usize),
     parent: Option<&S::Node>,
 ) -> Result<Option<Fragment<S>>, InsertError> {
     let Index { index, offset } = content.find_index(dist, false)?;
@@ -94,7 +102,8 @@ fn insert_into<S: Schema>(
         }
     }
     if offset == dist || matches!(child, Some(c) if c.is_text()) {
-        if let Some(p) = parent {
+        // Nodes that are cut open need not have valid content
+        if let Some(p) = parent.filter(|_| open_start == 0 && open_end == 0) {
             if !p.can_replace(index, index, Some(&insert), ..)? {
                 return Ok(None);
             }
@@ -112,7 +121,19 @@ fn insert_into<S: Schema>(
             child.content().unwrap_or(Fragment::EMPTY_REF),
             dist - offset - 1,
             insert,
-            None,
+            (
+                if index == 0 {
+                    open_start.saturating_sub(1)
+                } else {
+                    0
+                },
+                if index + 1 == content.child_count() {
+                    open_end.saturating_sub(1)
+                } else {
+                    0
+                },
+            ),
+            Some(child),
         )?;
         if let Some(i) = inner {
             Ok(Some(
-- 
2.43.0


From b74e8d154564888318bf5d4ccd159952c1a952f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 11/28] fix: refuse structural steps with a reversed range
 instead of panicking

---
 src/transform/replace_step.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index 09aa666..02f5391 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -78,7 +78,9 @@ impl<S: Schema> StepKind<S> for ReplaceAroundStep<S> {
 
 fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<bool, ResolveErr> {
     let rp_from = doc.resolve(from)?;
-    let mut dist = to - from;
+    let mut dist = to
+        .checked_sub(from)
+        .ok_or(ResolveErr::RangeError { pos: to })?;
     let mut depth = rp_from.depth;
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
-- 
2.43.0


From 74374b89aecefcd6669e6b03caedc0432185540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 12/28] fix: notice the rest of a text as content a structural
 step would overwrite

---
 src/transform/replace_step.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index 02f5391..cc1954a 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -81,6 +81,9 @@ fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<b
     let mut dist = to
         .checked_sub(from)
         .ok_or(ResolveErr::RangeError { pos: to })?;
+    if dist > 0 && rp_from.text_offset() > 0 {
+        return Ok(true);
+    }
     let mut depth = rp_from.depth;
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
-- 
2.43.0


From 24dd32b1680bdb6134fb42a9a79ab0f79a3e4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 13/28] fix: remove only the given mark from a set, not any
 mark of its type

---
 src/model/marks.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/model/marks.rs b/src/model/marks.rs
index 54f128b..8388fd7 100644
--- a/src/model/marks.rs
+++ b/src/model/marks.rs
@@ -47,10 +47,10 @@ impl<S: Schema> MarkSet<S> {
             .content
             .binary_search_by_key(&mark.r#type(), Mark::r#type)
         {
-            Ok(index) => {
+            Ok(index) if &self.content[index] == mark => {
                 self.content.remove(index);
             }
-            Err(_index) => {}
+            _ => {}
         }
     }
 }
@@ -137,12 +137,12 @@ pub trait Mark<S: Schema<Mark = Self>>:
             .content
             .binary_search_by_key(&self.r#type(), Mark::r#type)
         {
-            Ok(index) => {
+            Ok(index) if &set.content[index] == self => {
                 let mut owned_set = set.into_owned();
                 owned_set.content.remove(index);
                 Cow::Owned(owned_set)
             }
-            Err(_index) => set,
+            _ => set,
         }
     }
 
-- 
2.43.0


From eca06b24c31c38d4e3791f44e3741c8287cb9e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 14/28] fix: report the marks of text nodes, so that mark steps
 keep and content checks see them

---
 src/markdown/mod.rs    | 2 +-
 src/markdown/schema.rs | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/markdown/mod.rs b/src/markdown/mod.rs
index 55d5e8e..684ef91 100644
--- a/src/markdown/mod.rs
+++ b/src/markdown/mod.rs
@@ -138,7 +138,7 @@ impl Node<MD> for MarkdownNode {
     }
 
     fn marks(&self) -> Option<&MarkSet<MD>> {
-        None
+        self.text_node().map(|node| &node.marks)
     }
 
     fn mark(&self, set: MarkSet<MD>) -> Self {
diff --git a/src/markdown/schema.rs b/src/markdown/schema.rs
index d224ea8..9ceb61a 100644
--- a/src/markdown/schema.rs
+++ b/src/markdown/schema.rs
@@ -1,6 +1,6 @@
 use super::MarkdownMarkType;
 use crate::markdown::{MarkdownContentMatch, MarkdownMark, MarkdownNode};
-use crate::model::{ContentMatch, Fragment, MarkSet, Node, NodeType, Schema};
+use crate::model::{ContentMatch, Fragment, Mark, MarkSet, Node, NodeType, Schema};
 
 /// The markdown schema type
 pub struct MD;
@@ -61,8 +61,10 @@ impl MarkdownNodeType {
 }
 
 impl NodeType<MD> for MarkdownNodeType {
-    fn allow_marks(self, _marks: &MarkSet<MD>) -> bool {
-        self._allow_marks()
+    fn allow_marks(self, marks: &MarkSet<MD>) -> bool {
+        marks
+            .into_iter()
+            .all(|mark| self.allows_mark_type(mark.r#type()))
     }
 
     fn allows_mark_type(self, _mark_type: MarkdownMarkType) -> bool {
-- 
2.43.0


From 33300454e237225316289916ce7857916ed4def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 15/28] fix: merge neighbouring texts whose marks become equal
 in a mark step

---
 src/model/mod.rs           | 2 +-
 src/model/replace.rs       | 2 +-
 src/transform/mark_step.rs | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/model/mod.rs b/src/model/mod.rs
index 32f8140..381d3a4 100644
--- a/src/model/mod.rs
+++ b/src/model/mod.rs
@@ -19,7 +19,7 @@ pub use replace::{InsertError, ReplaceError, Slice};
 pub use resolved_pos::{ResolveErr, ResolvedNode, ResolvedPos};
 pub use schema::{AttrNode, Block, Leaf, MarkType, Schema, TextNode};
 
-pub(crate) use replace::replace;
+pub(crate) use replace::{add_node, replace};
 pub(crate) use resolved_pos::Index;
 
 #[cfg(test)]
diff --git a/src/model/replace.rs b/src/model/replace.rs
index f038ae0..1cc1e31 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -258,7 +258,7 @@ fn joinable<'a, S: Schema>(
     Ok(node)
 }
 
-fn add_node<S: Schema>(child: Cow<S::Node>, target: &mut Vec<S::Node>) {
+pub(crate) fn add_node<S: Schema>(child: Cow<S::Node>, target: &mut Vec<S::Node>) {
     if let Some(last) = target.last_mut() {
         if let Some(c_text) = child.text_node() {
             if let Some(l_text) = c_text.same_markup(last) {
diff --git a/src/transform/mark_step.rs b/src/transform/mark_step.rs
index 88ce8d0..1dac9d0 100644
--- a/src/transform/mark_step.rs
+++ b/src/transform/mark_step.rs
@@ -1,5 +1,5 @@
 use super::{util::Span, StepKind};
-use crate::model::{Fragment, Mark, MarkSet, Node, NodeType, Schema, Slice};
+use crate::model::{add_node, Fragment, Mark, MarkSet, Node, NodeType, Schema, Slice};
 use derivative::Derivative;
 use serde::{Deserialize, Serialize};
 use std::borrow::Cow;
@@ -15,7 +15,7 @@ where
         if child.is_inline() {
             child = f(child, parent, i)
         }
-        mapped.push(child)
+        add_node::<S>(Cow::Owned(child), &mut mapped);
     }
     Fragment::from(mapped)
 }
@@ -31,7 +31,7 @@ where
         if child.is_inline() {
             child = f(child)
         }
-        mapped.push(child)
+        add_node::<S>(Cow::Owned(child), &mut mapped);
     }
     Fragment::from(mapped)
 }
-- 
2.43.0


From ff753cbc54fd57d853b830176dd1e1012049c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 16/28] fix: visit only the nodes in the range instead of
 panicking on nested nodes

---
 src/model/fragment.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/fragment.rs b/src/model/fragment.rs
index 55b9187..c273f83 100644
--- a/src/model/fragment.rs
+++ b/src/model/fragment.rs
@@ -145,12 +145,15 @@ impl<S: Schema> Fragment<S> {
     ) {
         let mut pos = 0;
         for child in &self.inner {
+            if pos >= to {
+                break;
+            }
             let end = pos + child.node_size();
             if end > from && f(child, node_start + pos) {
                 if let Some(content) = child.content() {
                     let start = pos + 1;
                     content.nodes_between(
-                        usize::max(0, from - start),
+                        from.saturating_sub(start),
                         usize::min(content.size(), to - start),
                         f,
                         node_start + start,
-- 
2.43.0


From 8ebd4dac7f49e71846632c789ccc3cad156f9a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 17/28] fix: refuse empty slices with unequal open depths
 instead of panicking

---
 src/model/replace.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 1cc1e31..f3d6cbf 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -46,7 +46,7 @@ impl<S: Schema> Slice<S> {
     }
 
     /// Whether there are nodes of the open depths at both sides of the content. An empty slice
-    /// opens nothing, whatever its open depths are.
+    /// opens nothing, but its open depths still have to cancel out.
     fn has_open_nodes(&self) -> bool {
         let (mut start, mut end) = (Some(&self.content), Some(&self.content));
         for _ in 0..self.open_start {
@@ -57,7 +57,8 @@ impl<S: Schema> Slice<S> {
         for _ in 0..self.open_end {
             end = end.and_then(Fragment::last_child).and_then(Node::content);
         }
-        self.content.size() == 0 || (start.is_some() && end.is_some())
+        let empty = self.content.size() == 0 && self.open_start == self.open_end;
+        empty || (start.is_some() && end.is_some())
     }
 
     pub(crate) fn insert_at(
-- 
2.43.0


From 026f49f77e085b101de355031e0b0e59dbaef374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 18/28] fix: read neighbouring Markdown texts as one text node

---
 src/markdown/from_markdown.rs | 28 ++++++++++++++++++++--------
 src/model/node.rs             |  6 ++++++
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 45c9936..31ff526 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -80,6 +80,20 @@ impl MarkdownDeserializer {
         Ok(())
     }
 
+    /// Add a text, as part of the text before it if that has the same marks
+    fn add_text(&mut self, text: &str, marks: MarkSet<MD>) -> Result<(), FromMarkdownError> {
+        let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
+        match last.0.last_mut() {
+            _ if text.is_empty() => {}
+            Some(MarkdownNode::Text(t)) if t.marks == marks => t.text.push_str(text),
+            _ => last.0.push(MarkdownNode::Text(TextNode {
+                text: Text::from(text.to_string()),
+                marks,
+            })),
+        }
+        Ok(())
+    }
+
     fn deserialize(&mut self, parser: Parser) -> Result<MarkdownNode, FromMarkdownError> {
         self.push_stack(Attrs::Doc);
         for event in parser {
@@ -204,6 +218,9 @@ impl MarkdownDeserializer {
                         if let Attrs::CodeBlock(attrs) = attrs {
                             if let Some(MarkdownNode::Text(t)) = content.last_mut() {
                                 t.text.remove_last_newline();
+                                if t.text.as_str().is_empty() {
+                                    content.pop();
+                                }
                             }
                             let cb = MarkdownNode::CodeBlock(AttrNode {
                                 attrs,
@@ -289,18 +306,13 @@ impl MarkdownDeserializer {
                     }
                 },
                 Event::Text(text) => {
-                    self.add_content(MarkdownNode::Text(TextNode {
-                        text: Text::from(text.to_string()),
-                        marks: self.mark_set.clone(),
-                    }))?;
+                    let marks = self.mark_set.clone();
+                    self.add_text(&text, marks)?;
                 }
                 Event::Code(text) => {
                     let mut marks = self.mark_set.clone();
                     marks.add(&MarkdownMark::Code);
-                    self.add_content(MarkdownNode::Text(TextNode {
-                        text: Text::from(text.to_string()),
-                        marks,
-                    }))?;
+                    self.add_text(&text, marks)?;
                 }
                 Event::Html(_) => {
                     return Err(FromMarkdownError::NotSupported("Html"));
diff --git a/src/model/node.rs b/src/model/node.rs
index 6a09b22..cefca18 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -323,6 +323,12 @@ impl Text {
         Text { len_utf16, content }
     }
 
+    #[cfg(feature = "cmark")]
+    pub(crate) fn push_str(&mut self, text: &str) {
+        self.content.push_str(text);
+        self.len_utf16 += text.encode_utf16().count();
+    }
+
     #[cfg(feature = "cmark")]
     pub(crate) fn remove_last_newline(&mut self) {
         if let Some('\n') = self.content.chars().next_back() {
-- 
2.43.0


From 94398e1cd6977c388c10e18c61696f3278055998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 19/28] fix: read the text of tight list items as paragraphs

---
 src/markdown/from_markdown.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 31ff526..017fbff 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -2,7 +2,7 @@ use super::{
     BulletListAttrs, CodeBlockAttrs, HeadingAttrs, ImageAttrs, LinkAttrs, MarkdownMark,
     MarkdownNode, OrderedListAttrs, MD,
 };
-use crate::model::{AttrNode, Block, Fragment, Leaf, MarkSet, Text, TextNode};
+use crate::model::{AttrNode, Block, Fragment, Leaf, MarkSet, Node, Text, TextNode};
 use displaydoc::Display;
 use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};
 use std::{
@@ -39,6 +39,32 @@ pub enum Attrs {
     Image(ImageAttrs),
 }
 
+fn paragraph(content: Vec<MarkdownNode>) -> MarkdownNode {
+    MarkdownNode::Paragraph(Block {
+        content: Fragment::from(content),
+    })
+}
+
+/// Put paragraphs around the inline content of list items, which tight lists have without any
+fn wrap_inline(content: Vec<MarkdownNode>) -> Vec<MarkdownNode> {
+    let mut blocks = Vec::with_capacity(content.len());
+    let mut inline = Vec::new();
+    for node in content {
+        if node.is_inline() {
+            inline.push(node);
+        } else {
+            if !inline.is_empty() {
+                blocks.push(paragraph(std::mem::take(&mut inline)));
+            }
+            blocks.push(node);
+        }
+    }
+    if !inline.is_empty() {
+        blocks.push(paragraph(inline));
+    }
+    blocks
+}
+
 /// Creates a MarkdownNode::Doc from a text
 pub fn from_markdown(text: &str) -> Result<MarkdownNode, FromMarkdownError> {
     let parser = Parser::new(text);
@@ -256,6 +282,7 @@ impl MarkdownDeserializer {
                     Tag::Item => {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::ListItem = attrs {
+                            let content = wrap_inline(content);
                             let cb = MarkdownNode::ListItem(Block {
                                 content: Fragment::from(content),
                             });
-- 
2.43.0


From 6280c9a5143633052b0d1009346b5ca35d42275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 20/28] fix: add the paragraph that empty documents,
 blockquotes and list items need

---
 src/markdown/from_markdown.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 017fbff..af44f67 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -65,6 +65,14 @@ fn wrap_inline(content: Vec<MarkdownNode>) -> Vec<MarkdownNode> {
     blocks
 }
 
+/// Add the paragraph that a document, a blockquote or a list item cannot be without
+fn fill_blocks(mut content: Vec<MarkdownNode>, filled: bool) -> Fragment<MD> {
+    if !filled {
+        content.insert(0, paragraph(Vec::new()));
+    }
+    Fragment::from(content)
+}
+
 /// Creates a MarkdownNode::Doc from a text
 pub fn from_markdown(text: &str) -> Result<MarkdownNode, FromMarkdownError> {
     let parser = Parser::new(text);
@@ -231,8 +239,9 @@ impl MarkdownDeserializer {
                     Tag::BlockQuote => {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::Blockquote = attrs {
+                            let filled = !content.is_empty();
                             let b = MarkdownNode::Blockquote(Block {
-                                content: Fragment::from(content),
+                                content: fill_blocks(content, filled),
                             });
                             self.add_content(b)?;
                         } else {
@@ -283,8 +292,10 @@ impl MarkdownDeserializer {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::ListItem = attrs {
                             let content = wrap_inline(content);
+                            let filled =
+                                matches!(content.first(), Some(MarkdownNode::Paragraph(_)));
                             let cb = MarkdownNode::ListItem(Block {
-                                content: Fragment::from(content),
+                                content: fill_blocks(content, filled),
                             });
                             self.add_content(cb)?;
                         }
@@ -363,8 +374,9 @@ impl MarkdownDeserializer {
         }
         let (content, attrs) = self.pop_stack()?;
         if let Attrs::Doc = attrs {
+            let filled = !content.is_empty();
             Ok(MarkdownNode::Doc(Block {
-                content: Fragment::from(content),
+                content: fill_blocks(content, filled),
             }))
         } else {
             Err(FromMarkdownError::MisplacedEndTag("Doc", attrs))
-- 
2.43.0


From 5934d1ff6606e40f931c23bf72f0fe1161cdc544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 21/28] fix: keep the outer of two nested Markdown marks when
 the inner one ends

---
 src/markdown/from_markdown.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index af44f67..34ed15b 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -84,6 +84,8 @@ pub fn from_markdown(text: &str) -> Result<MarkdownNode, FromMarkdownError> {
 pub struct MarkdownDeserializer {
     stack: Vec<(Vec<MarkdownNode>, Attrs)>,
     mark_set: MarkSet<MD>,
+    /// The mark sets outside of each of the open marks
+    outer_sets: Vec<MarkSet<MD>>,
 }
 
 impl MarkdownDeserializer {
@@ -108,6 +110,17 @@ impl MarkdownDeserializer {
         Ok(popped)
     }
 
+    fn push_mark(&mut self, mark: &MarkdownMark) {
+        self.outer_sets.push(self.mark_set.clone());
+        self.mark_set.add(mark);
+    }
+
+    fn pop_mark(&mut self) -> Result<(), FromMarkdownError> {
+        let outer = self.outer_sets.pop();
+        self.mark_set = outer.ok_or(FromMarkdownError::StackEmpty)?;
+        Ok(())
+    }
+
     fn add_content(&mut self, node: MarkdownNode) -> Result<(), FromMarkdownError> {
         let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
         last.0.push(node);
@@ -188,16 +201,16 @@ impl MarkdownDeserializer {
                         return Err(FromMarkdownError::NotSupported("TableCell"));
                     }
                     Tag::Emphasis => {
-                        self.mark_set.add(&MarkdownMark::Em);
+                        self.push_mark(&MarkdownMark::Em);
                     }
                     Tag::Strong => {
-                        self.mark_set.add(&MarkdownMark::Strong);
+                        self.push_mark(&MarkdownMark::Strong);
                     }
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
                     }
                     Tag::Link(_, href, title) => {
-                        self.mark_set.add(&MarkdownMark::Link {
+                        self.push_mark(&MarkdownMark::Link {
                             attrs: LinkAttrs {
                                 href: href.to_string(),
                                 title: title.to_string(),
@@ -316,20 +329,17 @@ impl MarkdownDeserializer {
                         return Err(FromMarkdownError::NotSupported("TableCell"));
                     }
                     Tag::Emphasis => {
-                        self.mark_set.remove(&MarkdownMark::Em);
+                        self.pop_mark()?;
                     }
                     Tag::Strong => {
-                        self.mark_set.remove(&MarkdownMark::Strong);
+                        self.pop_mark()?;
                     }
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
                     }
-                    Tag::Link(_, href, title) => self.mark_set.remove(&MarkdownMark::Link {
-                        attrs: LinkAttrs {
-                            href: href.to_string(),
-                            title: title.to_string(),
-                        },
-                    }),
+                    Tag::Link(_, _, _) => {
+                        self.pop_mark()?;
+                    }
                     Tag::Image(_, _, _) => {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::Image(attrs) = attrs {
-- 
2.43.0


From 57c24ebae7cc550977321a1a38abde547d11c0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 22/28] fix: read the alternative text of Markdown images

---
 src/markdown/from_markdown.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 34ed15b..55a1448 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -220,7 +220,7 @@ impl MarkdownDeserializer {
                     Tag::Image(_, src, title) => {
                         self.push_stack(Attrs::Image(ImageAttrs {
                             src: src.to_string(),
-                            alt: title.to_string(),
+                            alt: String::new(),
                             title: title.to_string(),
                         }));
                     }
@@ -342,9 +342,13 @@ impl MarkdownDeserializer {
                     }
                     Tag::Image(_, _, _) => {
                         let (content, attrs) = self.pop_stack()?;
-                        if let Attrs::Image(attrs) = attrs {
-                            if content.len() > 0 {
-                                return Err(FromMarkdownError::NoChildrenAllowed("Image"));
+                        if let Attrs::Image(mut attrs) = attrs {
+                            for node in &content {
+                                match node {
+                                    MarkdownNode::Text(t) => attrs.alt.push_str(t.text.as_str()),
+                                    MarkdownNode::Image(i) => attrs.alt.push_str(&i.attrs.alt),
+                                    _ => return Err(FromMarkdownError::NoChildrenAllowed("Image")),
+                                }
                             }
                             let cb = MarkdownNode::Image(Leaf { attrs });
                             self.add_content(cb)?;
-- 
2.43.0


From f8dc14bce67f15b2faef170c4c5eabc9f85012d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 23/28] fix: refuse hard breaks in Markdown headings, which the
 schema does not allow

---
 src/markdown/from_markdown.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 55a1448..2c29192 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -240,6 +240,11 @@ impl MarkdownDeserializer {
                     Tag::Heading(_) => {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::Heading(attrs) = attrs {
+                            if content.contains(&MarkdownNode::HardBreak) {
+                                return Err(FromMarkdownError::NotSupported(
+                                    "HardBreak in Heading",
+                                ));
+                            }
                             let h = MarkdownNode::Heading(AttrNode {
                                 attrs,
                                 content: Fragment::from(content),
-- 
2.43.0


From a74e7722e99c8b45de8b32c7e7166b5b45d0f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 24/28] fix: write the title and the alternative text of images
 as Markdown

---
 src/markdown/to_markdown.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index ae83493..d76e2a5 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -183,13 +183,18 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
-                    self.process_attr_node(index, Fragment::EMPTY_REF, &(), node, |()| {
+                    let ev = self.process_attr_node(index, Fragment::EMPTY_REF, &(), node, |()| {
                         Tag::Image(
                             LinkType::Inline,
                             CowStr::Borrowed(attrs.src.as_str()),
-                            CowStr::Borrowed(attrs.src.as_str()),
+                            CowStr::Borrowed(attrs.title.as_str()),
                         )
-                    })
+                    });
+                    if matches!(&ev, Some(Event::Start(Tag::Image(..)))) && !attrs.alt.is_empty() {
+                        self.stack
+                            .push(Event::Text(CowStr::Borrowed(attrs.alt.as_str())));
+                    }
+                    ev
                 }
             }
         } else {
-- 
2.43.0


From 67cac8fefb0e36ca7b2e9c19e940a0bab17c75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:01 +0000
Subject: [PATCH 25/28] fix: close every mark that does not continue in the
 next text

---
 src/markdown/to_markdown.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index d76e2a5..b6ea227 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -137,10 +137,9 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     })
                 }
                 MarkdownNode::Text(text_node) => {
-                    if let Some(last) = self.marks.last().map(|n| *n) {
-                        if !text_node.marks.contains(last) {
+                    if self.marks.iter().any(|m| !text_node.marks.contains(m)) {
+                        if let Some(last) = self.marks.pop() {
                             self.inner.push((node, index));
-                            self.marks.pop();
                             return Some(Event::End(mark_tag(last)));
                         }
                     }
-- 
2.43.0


From 9b3e5e0cdbc7e108938b48c665a84958053226ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 26/28] fix: close the open marks before hard breaks, which
 have none

---
 src/markdown/to_markdown.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index b6ea227..7dd4d0c 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -178,7 +178,10 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                 }
                 MarkdownNode::HorizontalRule => Some(Event::Rule),
                 MarkdownNode::HardBreak => {
-                    // todo: inline marks
+                    if let Some(mark) = self.marks.pop() {
+                        self.inner.push((node, index));
+                        return Some(Event::End(mark_tag(mark)));
+                    }
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
-- 
2.43.0


From af6788a2ea62634c0eaba696295b32f79d3ee728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:30 +0000
Subject: [PATCH 27/28] fix: refuse Markdown that is nested deeper than the
 stack can bear

---
 src/markdown/from_markdown.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 2c29192..7124c6a 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -11,6 +11,9 @@ use std::{
 };
 use thiserror::Error;
 
+/// How deep nodes may be nested. Much deeper documents overflow the stack when they are dropped.
+const MAX_NESTING: usize = 1000;
+
 /// Errors that can occur when reading a markdown file
 #[derive(Debug, PartialEq, Display, Error)]
 pub enum FromMarkdownError {
@@ -144,6 +147,9 @@ impl MarkdownDeserializer {
     fn deserialize(&mut self, parser: Parser) -> Result<MarkdownNode, FromMarkdownError> {
         self.push_stack(Attrs::Doc);
         for event in parser {
+            if self.stack.len() > MAX_NESTING {
+                return Err(FromMarkdownError::NotSupported("Nesting this deep"));
+            }
             match event {
                 Event::Start(tag) => match tag {
                     Tag::Paragraph => {
-- 
2.43.0


From bad6b5a95e143024097c1e848d75bc1682fa4db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 28/28] fix: treat doc and list_item types as block types

---
 src/markdown/content.rs |  4 +++-
 src/markdown/schema.rs  | 25 +++++++++++++++----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/markdown/content.rs b/src/markdown/content.rs
index c871c62..5073c7f 100644
--- a/src/markdown/content.rs
+++ b/src/markdown/content.rs
@@ -30,7 +30,9 @@ impl ContentMatch<MD> for MarkdownContentMatch {
     fn match_type(self, r#type: MarkdownNodeType) -> Option<Self> {
         match self {
             Self::InlineStar => then_some(r#type.is_inline(), Self::InlineStar),
-            Self::BlockPlus | Self::BlockStar => then_some(r#type.is_block(), Self::BlockStar),
+            Self::BlockPlus | Self::BlockStar => {
+                then_some(r#type.in_block_group(), Self::BlockStar)
+            }
             Self::OrTextImageStar => then_some(
                 matches!(r#type, MarkdownNodeType::Text | MarkdownNodeType::Image),
                 Self::OrTextImageStar,
diff --git a/src/markdown/schema.rs b/src/markdown/schema.rs
index 9ceb61a..0cf082c 100644
--- a/src/markdown/schema.rs
+++ b/src/markdown/schema.rs
@@ -58,6 +58,20 @@ impl MarkdownNodeType {
             Self::Text | Self::HorizontalRule | Self::HardBreak | Self::Image => true, // inline
         }
     }
+
+    /// True if this type is in the `block` group, which excludes `doc` and `list_item`
+    pub(crate) fn in_block_group(self) -> bool {
+        matches!(
+            self,
+            Self::Paragraph
+                | Self::Blockquote
+                | Self::Heading
+                | Self::HorizontalRule
+                | Self::CodeBlock
+                | Self::OrderedList
+                | Self::BulletList
+        )
+    }
 }
 
 impl NodeType<MD> for MarkdownNodeType {
@@ -76,16 +90,7 @@ impl NodeType<MD> for MarkdownNodeType {
     }
 
     fn is_block(self) -> bool {
-        matches!(
-            self,
-            Self::Paragraph
-                | Self::Blockquote
-                | Self::Heading
-                | Self::HorizontalRule
-                | Self::CodeBlock
-                | Self::OrderedList
-                | Self::BulletList
-        )
+        !self.is_inline()
     }
 
     fn content_match(self) -> MarkdownContentMatch {
-- 
2.43.0

