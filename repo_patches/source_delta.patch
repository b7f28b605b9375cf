From 525a97d93c3c718cc0136f012218a9863f38934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 1/6] fix: event-parse keeps trivia at the end of the outermost
 construct

---
 crates/event-parse/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 5a5d6bf..d674f21 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -276,6 +276,10 @@ where
           }
         }
         Event::Exit => {
+          // don't lose trivia before the end of the outermost construct.
+          if levels == 1 {
+            self.eat_trivia(&mut to_enter, sink);
+          }
           if to_enter.pop().is_none() {
             sink.exit();
           }
-- 
2.43.0


From 1a2de395e5d200c96460775d03f35ce8fa9c9c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 2/6] fix: event-parse gives an empty parse the outermost
 construct's kind

---
 crates/event-parse/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index d674f21..feed9a7 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -251,9 +251,6 @@ where
       match ev {
         Event::Enter(kind, mut parent) => {
           assert!(kinds.is_empty());
-          if fst.is_none() {
-            fst = Some(kind);
-          }
           kinds.push(kind);
           while let Some(p) = parent {
             match self.events[p].take() {
@@ -266,6 +263,10 @@ where
               ev => unreachable!("{:?} was {:?}, not Enter", parent, ev),
             }
           }
+          if fst.is_none() {
+            // the outermost kind, which is not `kind` if that was preceded.
+            fst = kinds.last().copied();
+          }
           for kind in kinds.drain(..).rev() {
             // keep as much trivia as possible outside of what we're entering.
             if levels != 0 {
-- 
2.43.0


From f03fb85178a91f992a47eb067c8d03cedb256a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 3/6] fix: event-parse can precede a construct again after
 abandoning an earlier precede

---
 crates/event-parse/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index feed9a7..5dd716b 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -105,10 +105,15 @@ impl<'a, K, E> Parser<'a, K, E> {
   /// On internal error.
   pub fn precede(&mut self, ex: Exited) -> Entered {
     let ret = self.enter();
+    // an earlier parent may have been abandoned, leaving no event.
+    let has_parent = match self.events[ex.ev_idx] {
+      Some(Event::Enter(_, Some(parent))) => self.events[parent].is_some(),
+      _ => false,
+    };
     #[allow(clippy::match_on_vec_items)]
     match self.events[ex.ev_idx] {
       Some(Event::Enter(_, ref mut parent)) => {
-        assert!(parent.is_none());
+        assert!(!has_parent);
         *parent = Some(ret.ev_idx);
       }
       ref ev => unreachable!("{:?} preceded {:?}, not Enter", ex, ev),
-- 
2.43.0


From 184a4746b727426e79e5e5d29672dd6f5b272bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 4/6] fix: event-parse reports a completed construct empty
 exactly if it has no tokens

---
 crates/event-parse/src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 5dd716b..bddac25 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -31,13 +31,15 @@ use token::{Token, Triviable};
 pub struct Parser<'a, K, E> {
   tokens: &'a [Token<'a, K>],
   tok_idx: usize,
+  /// The number of tokens consumed.
+  bumped: usize,
   events: Vec<Option<Event<K, E>>>,
 }
 
 impl<'a, K, E> Parser<'a, K, E> {
   /// Returns a new parser for the given tokens.
   pub fn new(tokens: &'a [Token<'a, K>]) -> Self {
-    Self { tokens, tok_idx: 0, events: Vec::new() }
+    Self { tokens, tok_idx: 0, bumped: 0, events: Vec::new() }
   }
 
   /// Starts parsing a syntax construct.
@@ -62,7 +64,7 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn enter(&mut self) -> Entered {
     let ev_idx = self.events.len();
     self.events.push(None);
-    Entered { bomb: DropBomb::new("Entered markers must be exited"), ev_idx, tok_idx: self.tok_idx }
+    Entered { bomb: DropBomb::new("Entered markers must be exited"), ev_idx, bumped: self.bumped }
   }
 
   /// Abandons parsing a syntax construct.
@@ -89,7 +91,7 @@ impl<'a, K, E> Parser<'a, K, E> {
     assert!(ev.is_none());
     *ev = Some(Event::Enter(kind, None));
     self.events.push(Some(Event::Exit));
-    Exited { ev_idx: en.ev_idx, is_empty: self.tok_idx == en.tok_idx }
+    Exited { ev_idx: en.ev_idx, bumped: en.bumped, is_empty: self.bumped == en.bumped }
   }
 
   /// Starts parsing a syntax construct and makes it the parent of the given
@@ -104,7 +106,9 @@ impl<'a, K, E> Parser<'a, K, E> {
   ///
   /// On internal error.
   pub fn precede(&mut self, ex: Exited) -> Entered {
-    let ret = self.enter();
+    let mut ret = self.enter();
+    // the new node has everything since the start of the given one.
+    ret.bumped = ex.bumped;
     // an earlier parent may have been abandoned, leaving no event.
     let has_parent = match self.events[ex.ev_idx] {
       Some(Event::Enter(_, Some(parent))) => self.events[parent].is_some(),
@@ -147,7 +151,7 @@ impl<'a, K, E> Parser<'a, K, E> {
   /// }
   /// ```
   pub fn save(&self) -> Save {
-    Save { tok_idx: self.tok_idx, events_len: self.events.len() }
+    Save { tok_idx: self.tok_idx, bumped: self.bumped, events_len: self.events.len() }
   }
 
   /// Returns whether there were _no_ errors since the save, i.e. whether we did
@@ -158,6 +162,7 @@ impl<'a, K, E> Parser<'a, K, E> {
       self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));
     if error_since {
       self.tok_idx = save.tok_idx;
+      self.bumped = save.bumped;
       self.events.truncate(save.events_len);
     }
     !error_since
@@ -215,6 +220,7 @@ where
     let ret = self.peek().expect("bump with no tokens");
     self.events.push(Some(Event::Token));
     self.tok_idx += 1;
+    self.bumped += 1;
     ret
   }
 
@@ -346,7 +352,7 @@ where
 pub struct Entered {
   bomb: DropBomb,
   ev_idx: usize,
-  tok_idx: usize,
+  bumped: usize,
 }
 
 /// A marker for a syntax construct that has been fully parsed.
@@ -368,6 +374,7 @@ pub struct Entered {
 #[derive(Debug, Clone, Copy)]
 pub struct Exited {
   ev_idx: usize,
+  bumped: usize,
   is_empty: bool,
 }
 
@@ -384,6 +391,7 @@ impl Exited {
 #[must_use]
 pub struct Save {
   tok_idx: usize,
+  bumped: usize,
   events_len: usize,
 }
 
-- 
2.43.0


From 7b70e249efb2b06a2603071aeddd4613447be3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 5/6] fix: text-pos gives no offset for UTF-16 positions that
 are out of bounds

---
 crates/text-pos/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/text-pos/src/lib.rs b/crates/text-pos/src/lib.rs
index e70186a..c28f610 100644
--- a/crates/text-pos/src/lib.rs
+++ b/crates/text-pos/src/lib.rs
@@ -66,8 +66,10 @@ impl PositionDb {
   }
 
   fn text_size_utf8(&self, pos: PositionUtf8) -> Option<TextSize> {
-    let lc = line_index::LineCol { line: pos.line, col: pos.col };
-    self.inner.offset(lc)
+    let line = self.inner.line(pos.line)?;
+    let ret = line.start().checked_add(TextSize::from(pos.col))?;
+    // reject positions past the end of the line or inside a character.
+    (self.position_utf8(ret)? == pos).then_some(ret)
   }
 
   fn range_utf8(&self, text_range: TextRange) -> Option<RangeUtf8> {
-- 
2.43.0


From 0f665444aa64c717dabad1381fe3d2e8450fdaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 6/6] fix: syntax-gen's code compiles when there is no kind of
 trivia

---
 crates/syntax-gen/src/kind.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/syntax-gen/src/kind.rs b/crates/syntax-gen/src/kind.rs
index 7fe94c6..8b98174 100644
--- a/crates/syntax-gen/src/kind.rs
+++ b/crates/syntax-gen/src/kind.rs
@@ -65,7 +65,7 @@ pub(crate) fn get(
       },
     );
   let self_trivia = trivia.iter().map(|id| {
-    quote! { Self::#id }
+    quote! { Self::#id => true }
   });
   // the order is intentional
   let syntax_kinds: Vec<_> = trivia
@@ -119,7 +119,10 @@ pub(crate) fn get(
 
     impl token::Triviable for SyntaxKind {
       fn is_trivia(&self) -> bool {
-        matches!(*self, #(#self_trivia)|*)
+        match *self {
+          #(#self_trivia ,)*
+          _ => false,
+        }
       }
     }
 
-- 
2.43.0

