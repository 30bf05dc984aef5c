From 018a43f128030dbedfe3eaeeac4a145a42da6c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 01/11] fix: clear leaves no freed node reachable when an item
 destructor panics

---
 src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9cf0acf..cfd073b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -467,12 +467,18 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 
 	pub fn clear(&mut self) {
 		use storage::Dropper;
-		if let Some(mut dropper) = self.nodes.start_dropping() {
-			self.visit_from_leaves(|id| unsafe { dropper.drop_node(id) })
-		}
 
-		self.root = None;
+		// Detach the nodes before running any item destructor, so that a
+		// panicking destructor cannot leave freed nodes reachable.
+		let root = self.root.take();
 		self.len = 0;
+
+		if let (Some(id), Some(mut dropper)) = (root, self.nodes.start_dropping()) {
+			let node = unsafe { self.nodes.get(id) };
+			node.visit_from_leaves(&self.nodes, |id| unsafe { dropper.drop_node(id) });
+			unsafe { dropper.drop_node(id) }
+		}
+
 		self.nodes = S::default();
 	}
 
-- 
2.43.0


From 2f26d6c17a57906a873ac9baae9a7439b7c7f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 02/11] fix: IntoIter never drops items twice when an item
 destructor panics

---
 src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cfd073b..620b377 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -896,7 +896,16 @@ impl<T, S: Storage<T>> IntoIterator for RawBTree<T, S> {
 
 impl<T, S: Storage<T>> Drop for IntoIter<T, S> {
 	fn drop(&mut self) {
-		let _ = self.last();
-		self.btree.forget();
+		/// Forgets the tree even if an item destructor panics.
+		struct Guard<'a, T, S: Storage<T>>(&'a mut IntoIter<T, S>);
+
+		impl<'a, T, S: Storage<T>> Drop for Guard<'a, T, S> {
+			fn drop(&mut self) {
+				self.0.btree.forget();
+			}
+		}
+
+		let guard = Guard(self);
+		let _ = guard.0.by_ref().last();
 	}
 }
-- 
2.43.0


From ae2abcdd54565bde82fe5820fcd7b6c4624566b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 03/11] fix: searching an empty node does not panic

---
 src/utils/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 3b3d6ad..8593fad 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -12,8 +12,12 @@ pub fn binary_search_min<T, Q: ?Sized>(
 	sorted_slice: &[T],
 	key: &Q,
 ) -> Option<(usize, bool)> {
+	if sorted_slice.is_empty() {
+		return None;
+	}
+
 	let i_ord = cmp(&sorted_slice[0], key);
-	if sorted_slice.is_empty() || i_ord.is_gt() {
+	if i_ord.is_gt() {
 		None
 	} else {
 		let mut i = 0;
-- 
2.43.0


From 9ebf5f0a6fae8bbb31731ef5d3769cb6f31d9f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 04/11] fix: pop_right returns the offset of the popped item

---
 src/node/internal.rs | 2 +-
 src/node/leaf.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 5ac1a74..b83e9a3 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -441,8 +441,8 @@ impl<T, S: Storage<T>> Internal<T, S> {
 		if self.item_count() <= UNDERFLOW {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.other_children.len();
 			let last = self.other_children.pop().unwrap();
+			let offset = self.other_children.len();
 			Ok(RightBranch {
 				offset: offset.into(),
 				item: last.item,
diff --git a/src/node/leaf.rs b/src/node/leaf.rs
index 06edf76..89c084e 100644
--- a/src/node/leaf.rs
+++ b/src/node/leaf.rs
@@ -200,8 +200,8 @@ impl<T, S: Storage<T>> Leaf<T, S> {
 		if self.item_count() < M / 2 {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.items.len();
 			let item = self.items.pop().unwrap();
+			let offset = self.items.len();
 			Ok((offset.into(), item))
 		}
 	}
-- 
2.43.0


From af5302562ed372fe041a1c16298389abcbdbbd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 05/11] fix: no item at the before-first offset of an internal
 node

---
 src/node/internal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index b83e9a3..d3d8c32 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -276,16 +276,16 @@ impl<T, S: Storage<T>> Internal<T, S> {
 
 	#[inline]
 	pub fn item(&self, offset: Offset) -> Option<&T> {
-		match self.other_children.get(offset.unwrap()) {
-			Some(b) => Some(&b.item),
+		match offset.value() {
+			Some(offset) => self.other_children.get(offset).map(|b| &b.item),
 			None => None,
 		}
 	}
 
 	#[inline]
 	pub fn item_mut(&mut self, offset: Offset) -> Option<&mut T> {
-		match self.other_children.get_mut(offset.unwrap()) {
-			Some(b) => Some(&mut b.item),
+		match offset.value() {
+			Some(offset) => self.other_children.get_mut(offset).map(|b| &mut b.item),
 			None => None,
 		}
 	}
-- 
2.43.0


From feae590012aee75fd185dcef3b18cff744e5979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 06/11] fix: removing at the before-first offset removes
 nothing

---
 src/node/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index f4d2ccd..7c0fbd3 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -418,7 +418,7 @@ impl<T, S: Storage<T>> Node<T, S> {
 	pub fn leaf_remove(&mut self, offset: Offset) -> Option<Result<T, S::Node>> {
 		match self {
 			Node::Internal(node) => {
-				if offset < node.item_count() {
+				if !offset.is_before() && offset < node.item_count() {
 					let left_child_index = offset.unwrap();
 					Some(Err(node.child_id(left_child_index)))
 				} else {
@@ -426,7 +426,7 @@ impl<T, S: Storage<T>> Node<T, S> {
 				}
 			}
 			Node::Leaf(leaf) => {
-				if offset < leaf.item_count() {
+				if !offset.is_before() && offset < leaf.item_count() {
 					Some(Ok(leaf.remove(offset)))
 				} else {
 					None
-- 
2.43.0


From 8a584cfd533f2df16bb99900db0fc8b5fef13e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 07/11] fix: previous_item_address accepts the before-first
 offset

---
 src/storage.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 2439cf0..58fe766 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -132,8 +132,7 @@ pub unsafe trait Storage<T>: Default {
 		loop {
 			let node = self.get(addr.node);
 
-			match node.child_id_opt(addr.offset.unwrap()) {
-				// TODO unwrap may fail here.
+			match addr.offset.value().and_then(|offset| node.child_id_opt(offset)) {
 				Some(child_id) => {
 					addr.offset = self.get(child_id).item_count().into();
 					addr.node = child_id;
-- 
2.43.0


From 3443bdcb2104d228a15fc5074f9170df678c0d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 08/11] fix: stepping forward from past the end of a node never
 moves backward or stays put

---
 src/storage.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 58fe766..7e2684c 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -220,7 +220,10 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			_ => {
+				// past the end of the node: the next item is up the tree.
+				return self.normalize(addr);
+			}
 		}
 
 		// let original_addr_shifted = addr;
@@ -321,7 +324,10 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			_ => {
+				// past the end of the node: the next item, if any, is up the tree.
+				return self.normalize(addr);
+			}
 		}
 
 		let original_addr_shifted = addr;
-- 
2.43.0


From 4dd4203c10a34b91eda954716fa69bde042f71f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 09/11] fix: normalize moves the before-first offset to the
 next item

---
 src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 7e2684c..72d0010 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -81,6 +81,10 @@ pub unsafe trait Storage<T>: Default {
 	///
 	/// Input address's node must not have been deallocated.
 	unsafe fn normalize(&self, mut addr: Address<Self::Node>) -> Option<Address<Self::Node>> {
+		if addr.offset.is_before() {
+			return self.next_item_address(addr);
+		}
+
 		loop {
 			let node = self.get(addr.node);
 			if addr.offset >= node.item_count() {
-- 
2.43.0


From 4661e049b2fa5d5bda2bb2581f95d3366161754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 10/11] fix: clearing an array never drops items twice when a
 destructor panics

---
 src/utils/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 5df799a..3ce133a 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -147,10 +147,10 @@ impl<T, const N: usize> Array<T, N> {
 	}
 
 	pub fn clear(&mut self) {
-		for i in 0..self.len {
+		let len = std::mem::take(&mut self.len);
+		for i in 0..len {
 			unsafe { self.buffer[i].assume_init_drop() };
 		}
-		self.len = 0;
 	}
 }
 
-- 
2.43.0


From 0507a9d30f9e6b79a0d1f925efa28c449698af2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 11/11] fix: dropping a drain never drops items twice when a
 destructor panics

---
 src/utils/array.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 3ce133a..512b710 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -289,7 +289,17 @@ impl<'a, T, const N: usize> ExactSizeIterator for Drain<'a, T, N> {}
 
 impl<'a, T, const N: usize> Drop for Drain<'a, T, N> {
 	fn drop(&mut self) {
-		let _ = self.last();
+		// Moves the tail back in place, even if an item destructor panics.
+		struct ShiftOnDrop<'r, 'a, T, const N: usize>(&'r mut Drain<'a, T, N>);
+
+		impl<'r, 'a, T, const N: usize> Drop for ShiftOnDrop<'r, 'a, T, N> {
+			fn drop(&mut self) {
+				self.0.shift();
+			}
+		}
+
+		let guard = ShiftOnDrop(self);
+		let _ = guard.0.last();
 	}
 }
 
-- 
2.43.0

