From bf00d75029618dfc28fdaaecfe21f1105e77b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 01/13] fix: import math in utils/comparator so that the
 package and its dependents compile

---
 utils/comparator/comparator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index 32ba76d..aad362d 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -1,5 +1,7 @@
 package comparator
 
+import "math"
+
 type Ordered interface {
 	Integer | Float | ~string
 }
-- 
2.43.0


From 35d939e3a8863714d925dc0574a6a6cbd0249f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 02/13] fix: Complex64Comparator compared the real part of a
 with itself

---
 utils/comparator/comparator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index aad362d..f903548 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -282,7 +282,7 @@ func Complex64Comparator(a, b complex64) int {
 	if a == b {
 		return 0
 	}
-	if real(a) < real(a) {
+	if real(a) < real(b) {
 		return -1
 	}
 	if real(a) == real(b) && imag(a) < imag(b) {
-- 
2.43.0


From 12d41ddc89233328d74c9533adba5848dc874bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 03/13] fix: Ketama.Get checked for emptiness outside its
 critical section

---
 ds/ketama/ketama.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ds/ketama/ketama.go b/ds/ketama/ketama.go
index a890a76..2d202ef 100644
--- a/ds/ketama/ketama.go
+++ b/ds/ketama/ketama.go
@@ -105,16 +105,15 @@ func (k *Ketama) Remove(nodes ...string) {
 
 // Get returns the node closest to key in the clockwise direction
 func (k *Ketama) Get(key string) (string, bool) {
-	if k.Empty() {
-		return "", false
-	}
-
 	hashs := hash.GenHashInts([]byte(salt+key), 1)
 	hash := hashs[0]
 
 	k.locker.Lock()
 	defer k.locker.Unlock()
 
+	if k.m.Size() == 0 {
+		return "", false
+	}
 	iter := k.m.LowerBound(hash)
 	if iter.IsValid() {
 		return iter.Value(), true
-- 
2.43.0


From 932eb93247dba3ab8448d95d82073a8ce114aded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 04/13] fix: sort.Stable recursed forever on an empty range

---
 algorithm/sort/stable_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/stable_sort.go b/algorithm/sort/stable_sort.go
index 1765635..db1c07b 100644
--- a/algorithm/sort/stable_sort.go
+++ b/algorithm/sort/stable_sort.go
@@ -13,7 +13,7 @@ func Stable[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.
 }
 
 func mergeSort[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.Comparator[T], tempSlice []T) {
-	if first.Position()+1 == last.Position() {
+	if first.Position()+1 >= last.Position() {
 		return
 	}
 	mid := first.IteratorAt((first.Position() + last.Position()) >> 1)
-- 
2.43.0


From d9f0e6c1f8d547f5119bc1161d22d65cacb52ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 05/13] fix: NthElement skipped two-element subranges

---
 algorithm/sort/nth_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/nth_element.go b/algorithm/sort/nth_element.go
index 9b434e1..57b8cf5 100644
--- a/algorithm/sort/nth_element.go
+++ b/algorithm/sort/nth_element.go
@@ -15,7 +15,7 @@ func NthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp
 }
 
 func nthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp comparator.Comparator[T]) {
-	if first.Position()+1 >= last.Position() {
+	if first.Position() >= last.Position() {
 		return
 	}
 
-- 
2.43.0


From 6ec3e17beebf7cc35fed64058c4f67529e7bbc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 06/13] fix: algorithm.Reverse ran past the start of an empty
 range

---
 algorithm/op.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algorithm/op.go b/algorithm/op.go
index 3762592..c980e2b 100644
--- a/algorithm/op.go
+++ b/algorithm/op.go
@@ -14,6 +14,9 @@ func Swap[T any](a, b iterator.Iterator[T]) {
 
 // Reverse reverse the elements in the range [first, last]
 func Reverse[T any](first, last iterator.BidIterator[T]) {
+	if first.Equal(last) {
+		return
+	}
 	left := first.Clone().(iterator.BidIterator[T])
 	right := last.Clone().(iterator.BidIterator[T]).Prev().(iterator.BidIterator[T])
 	for !left.Equal(right) {
-- 
2.43.0


From e6c8328672b4c69fc89cc31b44a7fcafd300f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 07/13] fix: PushBackList and PushFrontList panicked when the
 receiver was empty

---
 ds/list/bidlist/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index bde246e..a4a1932 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -269,7 +269,7 @@ func (l *List[T]) moveToAfter(n, at *Node[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
 	for i, n := other.Len(), other.FrontNode(); i > 0; i, n = i-1, n.Next() {
-		l.InsertAfter(n.Value, l.head.prev)
+		l.PushBack(n.Value)
 	}
 }
 
@@ -277,7 +277,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
 	for i, e := other.Len(), other.BackNode(); i > 0; i, e = i-1, e.Prev() {
-		l.InsertBefore(e.Value, l.head)
+		l.PushFront(e.Value)
 	}
 }
 
-- 
2.43.0


From bbc50bbde40b62df45887aa0121eb9a5ee124479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 08/13] fix: MoveAfter ignored a request to move the front node
 after the last one

---
 ds/list/bidlist/list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index a4a1932..bd3ebd8 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -251,12 +251,15 @@ func (l *List[T]) MoveAfter(n, mark *Node[T]) {
 }
 
 func (l *List[T]) moveToAfter(n, at *Node[T]) {
-	if n == at.next || n == at {
+	if n == at {
 		return
 	}
 	if n == l.head {
 		l.head = n.next
 	}
+	if n == at.next {
+		return
+	}
 	n.prev.next = n.next
 	n.next.prev = n.prev
 	n.next = at.next
-- 
2.43.0


From a7f20bab945fbd8445172406d32a86733f99f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 09/13] fix: nodes of a cleared list still claimed to belong to
 it

---
 ds/list/bidlist/list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index bd3ebd8..0dd6f45 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -190,6 +190,11 @@ func (l *List[T]) remove(n *Node[T]) *Node[T] {
 
 // Clear removes all nodes
 func (l *List[T]) Clear() {
+	for n := l.head; n != nil; {
+		next := n.Next()
+		n.list = nil
+		n = next
+	}
 	l.head = nil
 	l.len = 0
 }
-- 
2.43.0


From 0bf00d9af59452bd8433be036a2b6cf385e2cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 10/13] fix: Hamt.Traversal went on after the visitor returned
 false

---
 ds/hamt/hamt.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ds/hamt/hamt.go b/ds/hamt/hamt.go
index 9ca1833..03684c1 100644
--- a/ds/hamt/hamt.go
+++ b/ds/hamt/hamt.go
@@ -161,19 +161,22 @@ func (h *BitmapNode[T]) find(depth int, hash uint64, key Key) (T, error) {
 	return *new(T), ErrorNotFound
 }
 
-func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) {
+func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) bool {
 	for _, entry := range h.children {
 		if entry.Type() == BITMAP_NODE {
-			entry.(*BitmapNode[T]).traversal(visitor)
+			if !entry.(*BitmapNode[T]).traversal(visitor) {
+				return false
+			}
 		} else {
 			node := entry.(*KvNode[T])
 			for kv := node.kvList; kv != nil; kv = kv.next {
 				if !visitor(kv.key, kv.value) {
-					return
+					return false
 				}
 			}
 		}
 	}
+	return true
 }
 
 func (h *BitmapNode[T]) erase(depth int, hash uint64, key Key) bool {
-- 
2.43.0


From bf626565ae5ec7c39e417ecc6f3fa19e87140d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 11/13] fix: SliceIterator.Equal ignored which slice the
 iterators belong to

---
 ds/slice/iterator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/slice/iterator.go b/ds/slice/iterator.go
index c7e22dd..f0048e7 100644
--- a/ds/slice/iterator.go
+++ b/ds/slice/iterator.go
@@ -69,7 +69,7 @@ func (iter *SliceIterator[T]) Equal(other iterator.ConstIterator[T]) bool {
 	if !ok {
 		return false
 	}
-	if otherIter.position == iter.position {
+	if otherIter.s == iter.s && otherIter.position == iter.position {
 		return true
 	}
 	return false
-- 
2.43.0


From 2fa347f54410f79b329cdc4085af34adcbb2ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 12/13] fix: Intersect, Union and Diff read the other set
 without holding its lock

---
 ds/set/set.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ds/set/set.go b/ds/set/set.go
index 057be50..0fb4476 100644
--- a/ds/set/set.go
+++ b/ds/set/set.go
@@ -182,15 +182,29 @@ func (s *Set[T]) String() string {
 	return str
 }
 
+// copyTree returns a copy of the set's tree, taken while holding the set's own lock,
+// so that two sets can be combined without ever holding both locks at once
+func (s *Set[T]) copyTree() *rbtree.RbTree[T, bool] {
+	s.locker.RLock()
+	defer s.locker.RUnlock()
+
+	tree := rbtree.New[T, bool](s.keyCmp)
+	for iter := s.tree.IterFirst(); iter.IsValid(); iter.Next() {
+		tree.Insert(iter.Key(), Empty)
+	}
+	return tree
+}
+
 // Intersect returns a new set with the common elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
+	otherTree := other.copyTree()
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
-	otherIter := other.tree.IterFirst()
+	otherIter := otherTree.IterFirst()
 	for sIter.IsValid() && otherIter.IsValid() {
 		cmp := s.keyCmp(sIter.Key(), otherIter.Key())
 		if cmp == 0 {
@@ -209,12 +223,13 @@ func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
 // Union returns a new set with the all elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Union(other *Set[T]) *Set[T] {
+	otherTree := other.copyTree()
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
-	otherIter := other.tree.IterFirst()
+	otherIter := otherTree.IterFirst()
 	for sIter.IsValid() && otherIter.IsValid() {
 		cmp := s.keyCmp(sIter.Key(), otherIter.Key())
 		if cmp == 0 {
@@ -241,12 +256,13 @@ func (s *Set[T]) Union(other *Set[T]) *Set[T] {
 // Diff returns a new set with the elements in the set s but not in the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Diff(other *Set[T]) *Set[T] {
+	otherTree := other.copyTree()
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
-	otherIter := other.tree.IterFirst()
+	otherIter := otherTree.IterFirst()
 	for sIter.IsValid() && otherIter.IsValid() {
 		cmp := s.keyCmp(sIter.Key(), otherIter.Key())
 		if cmp == 0 {
-- 
2.43.0


From 816a05818149c09d46b45cc84a91db08439f0478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 13/13] fix: SliceWrapper.Last returned the end position
 instead of the last element

---
 ds/slice/slice_wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/slice/slice_wrapper.go b/ds/slice/slice_wrapper.go
index 32c0935..608f9d7 100644
--- a/ds/slice/slice_wrapper.go
+++ b/ds/slice/slice_wrapper.go
@@ -60,6 +60,6 @@ func (s *SliceWrapper[T]) First() *SliceIterator[T] {
 // Last returns the last iterator of s
 func (s *SliceWrapper[T]) Last() *SliceIterator[T] {
 	return &SliceIterator[T]{s: s,
-		position: s.Len(),
+		position: s.Len() - 1,
 	}
 }
-- 
2.43.0

