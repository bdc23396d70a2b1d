From 5e7cf61e3a57b999a13c7730612bea04659773df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 01/29] fix: slicing a linked list with a negative step
 returned wrong elements

---
 extra/lists/linked_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 8a10560..03ca120 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1112,7 +1112,8 @@ class LinkedList(Extra):
         self._validate_index(idx, accept_negative=True, accept_slice=True)
         if isinstance(idx, slice):
             indices = range(*idx.indices(self._length))
-            max_idx = indices[-1] if indices else -1
+            max_idx = max(indices, default=-1)
+            is_reversed = indices.step < 0
             indices = set(indices)
             # start getting wanted nodes
             counter = 0
@@ -1121,6 +1122,8 @@ class LinkedList(Extra):
             out_llist = self._create_instance()
             while counter <= max_idx:
                 if counter in indices:
+                    if is_reversed:
+                        prev_node = None  # always insert at the front
                     prev_node = out_llist._insert_value(prev_node,
                                                         curr_node.get_data())
                 curr_node = curr_node.get_next()
-- 
2.43.0


From f3ec8692136b60b0f1b95a4b560da2f8f7665923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 02/29] fix: linked list `>` wasn't the mirror image of `<`
 when lengths differ

---
 extra/lists/linked_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 03ca120..5c380e2 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -818,7 +818,7 @@ class LinkedList(Extra):
         if all_equal:
             return True if self._length > other._length else False
         else:
-            return True if idx == self._length else False
+            return True if idx == other._length else False
 
     def __ge__(self, other):
         """
-- 
2.43.0


From 527be1d99711eb72a357cea66551afe2a57fbd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 03/29] fix: lists built from another list of the same type
 shared its nodes

---
 extra/lists/doubly_linked_list.py | 5 -----
 extra/lists/linked_list.py        | 4 ----
 extra/lists/skip_list.py          | 3 ---
 3 files changed, 12 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index b17d171..3a12ec3 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -207,11 +207,6 @@ class DoublyLinkedList(LinkedList):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a DoublyLinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
-            self._tail = iterable._tail
         else:
             self._head = None
             self._tail = None
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 5c380e2..9fbe477 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -222,10 +222,6 @@ class LinkedList(Extra):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a LinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
         else:
             self._head = None
             self._length = 0
diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 4c7fc26..889f7b7 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -295,9 +295,6 @@ class SkipList(Extra):
             self._num_levels = 1
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            self._level_lists = iterable._level_lists
-            self._num_levels = iterable._num_levels
         else:
             ll = LinkedList()
             ll._insert_node(ll._head, self._basic_node(float("-inf")))
-- 
2.43.0


From 94c2d674ae2b95e0abd5330d9594577c30efe83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 04/29] fix: extend() shared nodes with the other list and
 broke on itself

---
 extra/lists/circular_linked_list.py | 2 +-
 extra/lists/doubly_linked_list.py   | 2 ++
 extra/lists/linked_list.py          | 2 ++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 58dbc76..729d297 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -874,7 +874,7 @@ class CircularLinkedList(LinkedList):
                 curr_node = curr_node.get_next()
             prev_node = curr_node
             # now, let's add the new values
-            for item in other:
+            for item in other.to_list():
                 new_node = self._basic_node(item)
                 self._insert_node(prev_node, new_node)
                 prev_node = new_node
diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 3a12ec3..1bc22e0 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -984,6 +984,8 @@ class DoublyLinkedList(LinkedList):
                 "Type Mismatch! "
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
+        # copy the elements, so the two instances don't share any nodes
+        other = self.__class__(other)
         if other.is_empty():
             pass  # do nothing
         elif self.is_empty():
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 9fbe477..b22d3e5 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1402,6 +1402,8 @@ class LinkedList(Extra):
                 "Type Mismatch! "
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
+        # copy the elements, so the two instances don't share any nodes
+        other = self.__class__(other)
         if other.is_empty():
             pass  # do nothing
         elif self.is_empty():
-- 
2.43.0


From 084d332a939fce1813737e9306b04e4e50444ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 05/29] fix: circular list assignment didn't reject `None` or
 an empty list properly

---
 extra/lists/circular_linked_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 729d297..06d11c1 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -932,6 +932,9 @@ class CircularLinkedList(LinkedList):
            └──────────────────┘
         """
         self._validate_index(idx)
+        if self.is_empty():
+            raise IndexError(f"`{self.__name__}` is empty!!")
+        self._validate_item(item)
         idx = idx % self._length if self._length != 0 else 0
         super()._replace_value(idx, item)
 
-- 
2.43.0


From 022bd28d66c1c20d22ff96bbaa071f139e6a98c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 06/29] fix: an emptied doubly linked list (or queue) kept its
 last node

---
 extra/lists/doubly_linked_list.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 1bc22e0..59a2c01 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -1087,8 +1087,7 @@ class DoublyLinkedList(LinkedList):
         next_node = node_to_be_removed.get_next()
         # if node to be removed is the first
         if self._length == 1:
-            # NOTE: don't use set_data() here
-            self._head.data = self._tail.data = None
+            self._head = self._tail = None
             self._length -= 1
         elif self._length == 2:
             if prev_node is None:
-- 
2.43.0


From 3fc56dabc8aea6eb7274ca0ee3d92567458a9a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:24 +0000
Subject: [PATCH 07/29] fix: removing the head of a priority queue gave its
 priority to the next item

---
 extra/lists/doubly_linked_list.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 59a2c01..d63d297 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -1102,6 +1102,11 @@ class DoublyLinkedList(LinkedList):
                 prev_node.set_next(next_node)
                 self._tail = prev_node
                 self._length -= 1
+            elif prev_node is None:
+                # unlink the head; its node may carry more than just data
+                next_node.set_prev(None)
+                self._head = next_node
+                self._length -= 1
             else:
                 super()._remove_node(prev_node, node_to_be_removed)
 
-- 
2.43.0


From efe5fe3e5857fad9d07dbc727cbae9f538fdfdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 08/29] fix: priority queue lost track of its lowest/highest
 priority

---
 extra/lists/priority_queue.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extra/lists/priority_queue.py b/extra/lists/priority_queue.py
index 62d1b94..ea73358 100644
--- a/extra/lists/priority_queue.py
+++ b/extra/lists/priority_queue.py
@@ -369,9 +369,14 @@ class PriorityQueue(Queue):
         super()._validate_item(item)
         self.__validate_priority(priority)
         node = PriorityNode(item, priority)
+        was_full = self.is_full()
         self._min_priority = min(self._min_priority, node.get_priority())
         self._max_priority = max(self._max_priority, node.get_priority())
         super()._enqueue(node)
+        if was_full:
+            # an item has just been dropped
+            self._update_min_priority()
+            self._update_max_priority()
 
     # =============================      TOP     ==============================
     def top(self):
@@ -484,12 +489,14 @@ class PriorityQueue(Queue):
                         self._container._remove_node(curr_node.get_prev(),
                                                      curr_node)
                         self._update_min_priority()
+                        self._update_max_priority()
                         break
                 else:
                     if curr_node.get_priority() == self._max_priority:
                         node_data = curr_node.get_data()
                         self._container._remove_node(curr_node.get_prev(),
                                                      curr_node)
+                        self._update_min_priority()
                         self._update_max_priority()
                         break
                 curr_node = curr_node.get_next()
-- 
2.43.0


From 3837331e385c83a3d13cf423d5fb36486c4fe44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 09/29] fix: BST removal broke the order when the successor's
 child had children

---
 extra/trees/bst.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/extra/trees/bst.py b/extra/trees/bst.py
index fe6c3e8..0ed9ef3 100644
--- a/extra/trees/bst.py
+++ b/extra/trees/bst.py
@@ -899,7 +899,15 @@ class BST(BinaryTree):
                 new_replacement = replacement.get_right()
             # swap data
             self._basic_node.swap(node, replacement)
-            self._transplant(replacement, new_replacement)
+            if new_replacement is None:
+                self._transplant(replacement, None)
+            else:
+                # 'replacement' has just one child which takes its place
+                parent = replacement.get_parent()
+                if parent.get_left() == replacement:
+                    parent.set_left(new_replacement)
+                else:
+                    parent.set_right(new_replacement)
 
     def _remove(self, del_value, start_node):
         """
-- 
2.43.0


From 25874f0bee76102eb324398e3021401db2d6b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 10/29] fix: AVL removal could leave the tree unbalanced

---
 extra/trees/avl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/trees/avl.py b/extra/trees/avl.py
index cb09a88..e995b57 100644
--- a/extra/trees/avl.py
+++ b/extra/trees/avl.py
@@ -750,7 +750,9 @@ class AVL(BST):
         left_height, right_height = parent.get_children_heights()
         node = (
             parent.get_left()
-            if left_height > right_height else parent.get_right()
+            if left_height > right_height
+            or (left_height == right_height and parent.is_left_child())
+            else parent.get_right()
         )
 
         # determine the direction
-- 
2.43.0


From 9a71eedadeb7a3d4ed07d893a8d17c9592538c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 11/29] fix: removing an inner value from a heap broke the heap
 order

---
 extra/trees/_heap.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index f1b122d..423ec3c 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -352,6 +352,19 @@ class Heap(ABC, Extra):
         self.__rebalance(del_idx, is_min_heap)
         # remove the (+/-)inf
         self._heap.pop()
+        # the moved item could be out of order with its new parent
+        idx = del_idx
+        while 0 < idx < len(self._heap):
+            parent_idx = (idx - 1) // 2
+            current = self._heap[idx]
+            parent = self._heap[parent_idx]
+            if (is_min_heap and parent > current) or (
+                not is_min_heap and parent < current
+            ):
+                self._heap[parent_idx], self._heap[idx] = current, parent
+                idx = parent_idx
+            else:
+                break
 
     # =============================     ITER     ==============================
     def __iter__(self):
-- 
2.43.0


From fd336798fa872d5befd6f89296ebb65e38bd20be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 12/29] fix: heaps leaked their own storage and couldn't be
 iterated when empty

---
 extra/trees/_heap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index 423ec3c..8a255d9 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -377,6 +377,8 @@ class Heap(ABC, Extra):
         generator:
             The value of each node in the instance.
         """
+        if self.is_empty():
+            return
         btree = self._transform()
         for node in btree:
             yield node
@@ -391,7 +393,7 @@ class Heap(ABC, Extra):
         list:
             A `list` object containing the same elements as the heap instance.
         """
-        return self._heap
+        return list(self._heap)
 
     # =============================    CLEAR     ==============================
     def clear(self):
-- 
2.43.0


From f5151542abb898ebf58c5622a5848c5b4ad5b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 13/29] fix: remove_min()/remove_max() crashed on an empty heap
 instead of warning

---
 extra/trees/max_heap.py | 6 ++++--
 extra/trees/min_heap.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/extra/trees/max_heap.py b/extra/trees/max_heap.py
index 8e2e512..f700f6f 100644
--- a/extra/trees/max_heap.py
+++ b/extra/trees/max_heap.py
@@ -372,7 +372,8 @@ class MaxHeap(Heap):
          / \\    /
         2   4   1
         """
-        self.remove(self.get_min())
+        # removing anything from an empty instance raises a warning
+        self.remove(None if self.is_empty() else self.get_min())
 
     def remove_max(self):
         """
@@ -402,7 +403,8 @@ class MaxHeap(Heap):
          / \\    /
         2   1   0
         """
-        self.remove(self.get_max())
+        # removing anything from an empty instance raises a warning
+        self.remove(None if self.is_empty() else self.get_max())
 
     # =============================     ITER     ==============================
     def __iter__(self):
diff --git a/extra/trees/min_heap.py b/extra/trees/min_heap.py
index d1037eb..6ecad08 100644
--- a/extra/trees/min_heap.py
+++ b/extra/trees/min_heap.py
@@ -370,7 +370,8 @@ class MinHeap(Heap):
          / \\    /
         7   9   3
         """
-        self.remove(self.get_min())
+        # removing anything from an empty instance raises a warning
+        self.remove(None if self.is_empty() else self.get_min())
 
     def remove_max(self):
         """
@@ -400,7 +401,8 @@ class MinHeap(Heap):
          /       / \\
         7       3   2
         """
-        self.remove(self.get_max())
+        # removing anything from an empty instance raises a warning
+        self.remove(None if self.is_empty() else self.get_max())
 
     # =============================     ITER     ==============================
     def __iter__(self):
-- 
2.43.0


From c9da9690463808c722680f09708aaa5b33795aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 14/29] fix: searching an empty tree crashed

---
 extra/trees/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/tree.py b/extra/trees/tree.py
index 89cea00..c79d12c 100644
--- a/extra/trees/tree.py
+++ b/extra/trees/tree.py
@@ -1013,7 +1013,7 @@ class Tree(Extra):
         >>> t._search(50)
         None
         """
-        queue = [self._root]
+        queue = [] if self._root is None else [self._root]
         while queue:
             curr_node = queue.pop()
             if curr_node.get_data() == value:
-- 
2.43.0


From 3e5448e1208e3b52a0f2533070877496aacd3fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 15/29] fix: searching a splay tree crashed when empty or given
 a non-number

---
 extra/trees/splay_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra/trees/splay_tree.py b/extra/trees/splay_tree.py
index 87ef649..0762156 100644
--- a/extra/trees/splay_tree.py
+++ b/extra/trees/splay_tree.py
@@ -390,7 +390,8 @@ class SplayTree(BST):
         which is the greatest value (`6`) in the splay tree is moved to the
         root.
         """
-        super()._validate_item(find_val)
+        if self.is_empty() or type(find_val) not in {int, float}:
+            return False
         node = super()._search(find_val, self._root)
         self._splay(node)
         return node.get_data() == find_val
-- 
2.43.0


From eac96bb3f79e79f0f68d388f3f6e77a312240ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 16/29] fix: is_balanced() was wrong for a root with just one
 leaf child

---
 extra/trees/binary_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/trees/binary_tree.py b/extra/trees/binary_tree.py
index 71e16fb..a071f71 100644
--- a/extra/trees/binary_tree.py
+++ b/extra/trees/binary_tree.py
@@ -745,12 +745,12 @@ class BinaryTree(Tree):
         left_depth = (
             0
             if self._root.get_left() is None
-            else 1 + super()._get_depth(self._root.get_left())
+            else 1 + super()._get_height(self._root.get_left())
         )
         right_depth = (
             0
             if self._root.get_right() is None
-            else 1 + super()._get_depth(self._root.get_right())
+            else 1 + super()._get_height(self._root.get_right())
         )
         return abs(left_depth - right_depth) <= 1
 
-- 
2.43.0


From ac588bf8cb027e4ed338f9578ef1f85bbd012f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 17/29] fix: get_black_height() crashed on an empty red-black
 tree

---
 extra/trees/red_black_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index dab6e8f..91f3cd9 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -970,6 +970,8 @@ class RedBlackTree(BST):
         >>> rbtree.get_black_height()
         2
         """
+        if self.is_empty():
+            return 0
         black_height = 0
         start_node = self._root.get_left()
         while start_node is not None:
-- 
2.43.0


From a5d66c571ee71afcccf865f0f620a90f9c4e7cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 18/29] fix: treap removal crashed when nodes had negative
 priorities

---
 extra/trees/treap.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/extra/trees/treap.py b/extra/trees/treap.py
index 6c1fff2..8d18f61 100644
--- a/extra/trees/treap.py
+++ b/extra/trees/treap.py
@@ -556,17 +556,13 @@ class Treap(BST):
             # rotate till removed_node is leaf
             parent = removed_node.get_parent()
             while not removed_node.is_leaf():
-                # get children's priority
                 left_child = removed_node.get_left()
                 right_child = removed_node.get_right()
-                left_priority = left_child.get_priority() if left_child else -1
-                right_priority = (
-                    right_child.get_priority()
-                    if right_child
-                    else -1
-                )
-                # perform rotation
-                if left_priority > right_priority:
+                # the child with the higher priority goes up
+                if right_child is None or (
+                    left_child is not None
+                    and left_child.get_priority() > right_child.get_priority()
+                ):
                     removed_node = super()._rotate_right(removed_node)
                     super()._attach(parent, removed_node)
                     parent = removed_node
-- 
2.43.0


From e639ccff91abeb03a7f5289ba9d57e9b6a5c0673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 19/29] fix: looking up a missing `}` in a trie crashed

---
 extra/trees/trie.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 66400c5..f35ba9f 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -530,8 +530,9 @@ class Trie(Tree):
         while word:
             ch = word[0]
             child = curr_node.get_child(ch)
-            child_data = child.get_data() if child else "}"
-            # '}' is used to break the following if-condition
+            if child is None:
+                break
+            child_data = child.get_data()
             if child_data == word[: len(child_data)]:
                 word = word[len(child_data):]
                 curr_node = child
-- 
2.43.0


From 56f6290d358a16ec1ae2786d5e20d23962ea3e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 20/29] fix: removing the last word of a trie crashed

---
 extra/trees/trie.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index f35ba9f..19cf811 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -720,7 +720,11 @@ class Trie(Tree):
         if remaining_word == "":  # found the whole word
             curr_node = last_node
             curr_node._is_word = False
-            while not curr_node._is_word and curr_node.is_leaf():
+            while (
+                curr_node is not self._root
+                and not curr_node._is_word
+                and curr_node.is_leaf()
+            ):
                 ch = curr_node.get_data()[0]
                 parent = curr_node.get_parent()
                 del parent._children[ch]
-- 
2.43.0


From 6b36ccb39a8ad504ecfa03d8339dfe09ecde0a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 21/29] fix: removing a word a trie doesn't hold gave no
 warning

---
 extra/trees/trie.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 19cf811..cd23061 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -717,7 +717,12 @@ class Trie(Tree):
         elif word == "":
             return
         last_node, remaining_word = self._follow_path(word)
-        if remaining_word == "":  # found the whole word
+        if remaining_word or not last_node._is_word:
+            warnings.warn(
+                f"`{word}` doesn't exist in `{self.__name__}`",
+                UserWarning
+            )
+        else:  # found the whole word
             curr_node = last_node
             curr_node._is_word = False
             while (
-- 
2.43.0


From 66acab2e145dfa3130847bba13135aa193fa7f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 22/29] fix: lowest common ancestor rejected the last leaf on
 one side only

---
 extra/trees/suffix_trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index cb0f21d..9dbb62b 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -623,7 +623,7 @@ class SuffixTrie(Extra):
             raise TypeError("`i` and `j` should be integer values!!")
         elif i < 0 or j < 0:
             raise ValueError("`i` and `j` should be postive integer values!!")
-        elif i >= len(self._word) or j > len(self._word):
+        elif i > len(self._word) or j > len(self._word):
             raise ValueError(
                 f"`i` and `j` values can't exceed {len(self._word)} "
                 + f"since it is the length of given word: `{self._word}`!!"
-- 
2.43.0


From db2bde81995929f14e39fbe9aee2075777293835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 23/29] fix: the longest repeated substring missed repeats on
 upper levels

---
 extra/trees/suffix_trie.py | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index 9dbb62b..fc96787 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -422,28 +422,6 @@ class SuffixTrie(Extra):
         return [k for k, v in sorted(self._suffix_array, key=lambda x: x[1])]
 
     # =============================    LCS/LRS   ==============================
-    def __get_deepest_nodes(self):
-        """
-        Returns a list of the trie nodes found in the deepest one or two levels
-        of the `SuffixTrie()` instance. It returns a list of the deepest two
-        level only if the height of the SuffixTrie exceeds 2. Other than that,
-        it returns a list of the deepest level.
-
-        Returns
-        -------
-        list:
-            A list of the deepest `TrieNode()` objects found in the
-            `SuffixTrie()` instanece.
-        """
-        if self._rt.is_empty():
-            return self._rt._root
-        level_nodes = (
-            self._rt._get_nodes_per_level(self._rt._root, 0, [], False)
-        )
-        if len(level_nodes) > 2:
-            return level_nodes[-1] + level_nodes[-2]
-        return level_nodes[-1]
-
     def _get_ancestors_data(self, node):
         """
         Gets all the data in the ancestors (parent, then grand-parent, then
@@ -532,7 +510,7 @@ class SuffixTrie(Extra):
             return []
         lcs_set = set()
         longest_length = 0
-        for node in self.__get_deepest_nodes():
+        for node in self._leaf_nodes.values():
             lcs = self._get_ancestors_data(node)
             longest_length = max(longest_length, len(lcs))
             lcs_set.add(lcs)
-- 
2.43.0


From ab76d034637758456ce88c7cda1bcf1a415b533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 24/29] fix: red-black removal crashed or broke the color rules

---
 extra/trees/red_black_tree.py | 59 +++++++++++++++--------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index 91f3cd9..b44c7dd 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -727,6 +727,7 @@ class RedBlackTree(BST):
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = double_black_node.get_parent()
                 # Case II
                 else:
                     if s_right_color == Color.BLACK:
@@ -769,10 +770,11 @@ class RedBlackTree(BST):
                     s_right_child.get_color() if s_right_child else Color.BLACK
                 )
                 # Case III
-                if (s_right_color == Color.BLACK
+                if (s_left_color == Color.BLACK
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = double_black_node.get_parent()
                 # Case II
                 else:
                     if s_left_color == Color.BLACK:
@@ -790,6 +792,9 @@ class RedBlackTree(BST):
                     parent = super()._rotate_right(parent)
                     super()._attach(grandparent, parent)
                     double_black_node = self._root
+        # a red node absorbs the extra black
+        if double_black_node:
+            double_black_node.set_color(Color.BLACK)
         # make sure root is always black
         self._root.set_color(Color.BLACK)
 
@@ -875,47 +880,33 @@ class RedBlackTree(BST):
             # print("Case I (replace red-node with red-node/None)")
             super()._transplant(removed_node, replacement)
 
-        # Case II (replace red-node with black-node)
-        elif (
-            removed_node.get_color() == Color.RED
-            and replacement.get_color() == Color.BLACK
-        ):
-            # print("Case II (replace red-node with black-node)")
-            raise ValueError("Debug this, this case shouldn't occur!!")
+        # Case IV (replace black-node with red-node/None)
+        elif replacement and replacement.get_color() == Color.RED:
+            replacement.set_color(Color.BLACK)
+            # print("Case IV (replace black-node with red-node/None)")
+            super()._transplant(removed_node, replacement)
 
-        # Case III (replace black-node with black-node)
-        elif removed_node.get_color() == Color.BLACK and (
-            replacement is None or replacement.get_color() == Color.BLACK
-        ):
-            # print("Case III (double black-node)")
+        # Cases II and III (a black-node gets unlinked)
+        else:
+            # print("Cases II and III (double black-node)")
             if replacement:
-                parent = replacement.get_parent()
-            else:
-                parent = removed_node.get_parent()
+                # swapping exchanges colors while each place keeps its color
+                removed_color = removed_node.get_color()
+                removed_node.set_color(replacement.get_color())
+                replacement.set_color(removed_color)
+            # get the place where the double black node will be
+            unlinked = replacement if replacement else removed_node
+            parent = unlinked.get_parent()
+            is_left_child = parent.get_left() is unlinked
             # do the transplant
             super()._transplant(removed_node, replacement)
             # get double black node
-            if replacement is None:
-                if parent.get_left() is None:
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
+            if is_left_child:
+                double_black_node = parent.get_left()
             else:
-                if replacement.get_data() < parent.get_data():
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
+                double_black_node = parent.get_right()
             # handle this double black
             self.__handle_double_black(parent, double_black_node)
-
-        # Case IV (replace black-node with red-node/None)
-        elif (
-            removed_node.get_color() == Color.BLACK
-            and replacement.get_color() == Color.RED
-        ):
-            replacement.set_color(Color.BLACK)
-            # print("Case IV (replace black-node with red-node/None)")
-            super()._transplant(removed_node, replacement)
         # decrease the length
         self._length -= 1
 
-- 
2.43.0


From f42f55dea2c866d282eb31f3f6930771e74bc329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 25/29] fix: red-black insertion recolored around black nodes

---
 extra/trees/red_black_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index b44c7dd..f0be521 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -508,6 +508,9 @@ class RedBlackTree(BST):
         uncle = start_node.get_uncle()
         parent = start_node.get_parent()
         grandparent = parent.get_parent() if parent else None
+        # black nodes don't need recoloring
+        if start_node.get_color() == Color.BLACK:
+            return self._root if parent else start_node
         # recolor when node has a grandparent
         if parent is None or grandparent is None:
             return parent if parent else start_node
-- 
2.43.0


From 21af23b0c08dd897f99f49c7a71beaddf5d41ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 26/29] fix: skip list mistook its own -inf sentinel for a
 value

---
 extra/lists/skip_list.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 889f7b7..929b971 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -639,6 +639,27 @@ class SkipList(Extra):
         elif idx < -len(self) or idx >= len(self):
             raise IndexError("Can't find any element at the given index!!")
 
+    def _is_found(self, node, value):
+        """
+        Checks if the given `node` holds the given `value`. The first node of
+        each level doesn't count since it's just the -∞ sentinel.
+
+        Parameters
+        ----------
+        node: SkipNode()
+            The node to be checked.
+        value: int or float
+            The value that was searched for.
+
+        Returns
+        -------
+        bool:
+            `True` if the given node holds the given value, `False` otherwise.
+        """
+        return node.get_data() == value and not any(
+            node is level_list._head for level_list in self._level_lists
+        )
+
     def _search(self, value):
         """
         Searches the `SkipList()` for a given value and returns the first node
@@ -698,7 +719,7 @@ class SkipList(Extra):
         start_node = top_list._head
         while (start_node.get_down() is not None):
             prev_node, found_node = search_sorted(prev_node, start_node, value)
-            if found_node.get_data() == value:
+            if self._is_found(found_node, value):
                 return prev_node, found_node, last_accessed_nodes
             last_accessed_nodes.append(found_node)
             start_node = found_node.get_down()
@@ -744,7 +765,7 @@ class SkipList(Extra):
             return False
         self._validate_item(value)
         _, found_node, _ = self._search(value)
-        return found_node.get_data() == value
+        return self._is_found(found_node, value)
 
     def __getitem__(self, idx):
         """
@@ -897,7 +918,7 @@ class SkipList(Extra):
         # search for that value
         _, found_node, last_accessed_nodes = self._search(value)
         # `value` already exists in our SkipList
-        if found_node.get_data() == value:
+        if self._is_found(found_node, value):
             return
         # create new_node with the new value
         new_node = self._basic_node(value)
@@ -982,7 +1003,7 @@ class SkipList(Extra):
         prev_node, found_node, last_accessed_nodes = self._search(value)
         # NOTE: len(last_accessed_nodes) can be used to get the level where
         #  this value was found
-        if found_node.get_data() == value:
+        if self._is_found(found_node, value):
             level = self._num_levels - 1 - len(last_accessed_nodes)
             while level >= 0:
                 curr_level_list = self._level_lists[level]
-- 
2.43.0


From d5e90fe538a57b77fca9a511280a5c7a040f8223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 27/29] fix: priority queue ignored the given seed

---
 extra/lists/priority_queue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/lists/priority_queue.py b/extra/lists/priority_queue.py
index ea73358..a67cf19 100644
--- a/extra/lists/priority_queue.py
+++ b/extra/lists/priority_queue.py
@@ -159,6 +159,7 @@ class PriorityQueue(Queue):
             It's a positive integer representing the maximum number of elements
             a `PriorityQueue()` should contain. (default: inf)
         seed: int, optional
+            A seed to generate consistent random priorities.
 
         Raises
         ------
@@ -191,6 +192,8 @@ class PriorityQueue(Queue):
         11
         """
         super().__init__(max_capacity)
+        if seed is not None:
+            random.seed(seed)
         self._min_priority = float("inf")
         self._max_priority = float("-inf")
 
-- 
2.43.0


From 886d800d7e0509ed0840a0a4b8993d017637f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 28/29] fix: suffix trie cut labels of texts holding the arrow
 it draws

---
 extra/trees/suffix_trie.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index fc96787..88de117 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -315,7 +315,8 @@ class SuffixTrie(Extra):
         banana$,a,na,$,na,$,na$,$,na$,$,
         """
         for node in self._rt.__iter__():
-            yield node.split(" ⟶ ")[0]
+            label, mark, _ = node.partition("$ ⟶ ")
+            yield label + mark[:1]
 
     def to_list(self):
         """
-- 
2.43.0


From c5840f729d50b82d5ac4c494d1815840c140e98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:17 +0000
Subject: [PATCH 29/29] fix: PriorityQueue.enqueue keeps its cached priorities
 when its warning is raised as an error

---
 extra/lists/priority_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/lists/priority_queue.py b/extra/lists/priority_queue.py
index a67cf19..0f069b5 100644
--- a/extra/lists/priority_queue.py
+++ b/extra/lists/priority_queue.py
@@ -373,9 +373,9 @@ class PriorityQueue(Queue):
         self.__validate_priority(priority)
         node = PriorityNode(item, priority)
         was_full = self.is_full()
+        super()._enqueue(node)
         self._min_priority = min(self._min_priority, node.get_priority())
         self._max_priority = max(self._max_priority, node.get_priority())
-        super()._enqueue(node)
         if was_full:
             # an item has just been dropped
             self._update_min_priority()
-- 
2.43.0

