From 4a3c7555026c9790285f94e865315846c5687cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 01/17] fix: decide key equality with the comparator, not
 operator==

dense_map and btree searched with Compare but recognised an existing key
with operator==/!=.  With a comparator that treats distinct keys as
equivalent, equivalent keys were inserted side by side and find(),
contains() and upper_bound() disagreed with lower_bound() and equal_range().
---
 include/fast_containers/btree.ipp     | 13 +++++++------
 include/fast_containers/dense_map.ipp | 10 +++++-----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 74975f6..d385db1 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -366,7 +366,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     auto it = node->internal_children.lower_bound(key);
 
     if (it != node->internal_children.begin() &&
-        (it == node->internal_children.end() || it->first != key)) {
+        (it == node->internal_children.end() || comp_(key, it->first))) {
       --it;
     }
 
@@ -377,7 +377,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto it = node->leaf_children.lower_bound(key);
 
   if (it != node->leaf_children.begin() &&
-      (it == node->leaf_children.end() || it->first != key)) {
+      (it == node->leaf_children.end() || comp_(key, it->first))) {
     --it;
   }
 
@@ -689,7 +689,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Erase elements one by one until we reach 'last'
   while (first != end()) {
     // Check if we've reached the 'last' position by comparing keys
-    if (last_key.has_value() && (*first).first == *last_key) {
+    if (last_key.has_value() && !comp_((*first).first, *last_key)) {
       break;
     }
     first = erase(first);
@@ -927,7 +927,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto pos = leaf->data.lower_bound(key);
 
   // Check if key already exists - delegate to on_exists callback
-  if (pos != leaf->data.end() && pos->first == key) {
+  if (pos != leaf->data.end() && !comp_(key, pos->first)) {
     return std::forward<OnExists>(on_exists)(leaf, pos);
   }
 
@@ -1112,7 +1112,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   if (it != children.end() && it->second == child) {
     // Found it at lower_bound position
     is_leftmost = (it == children.begin());
-    if (it->first != new_min) {
+    if (comp_(it->first, new_min) || comp_(new_min, it->first)) {
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
       children.unsafe_update_key(it, new_min);
@@ -1120,7 +1120,8 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   } else if (it != children.begin()) {
     // Check the previous entry
     --it;
-    if (it->second == child && it->first != new_min) {
+    if (it->second == child &&
+        (comp_(it->first, new_min) || comp_(new_min, it->first))) {
       is_leftmost = (it == children.begin());
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 1d96e72..f1d4f5f 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -367,7 +367,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(const Key& key) {
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return iterator(this, idx);
   }
   return end();
@@ -388,7 +388,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return const_iterator(this, idx);
   }
   return end();
@@ -442,7 +442,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -462,7 +462,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::const_iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) const {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -697,7 +697,7 @@ std::pair<
 dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     size_type idx, const Key& key, OnExists&& on_exists, OnInsert&& on_insert) {
   // Check if key exists at this position
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return std::forward<OnExists>(on_exists)(
         idx);  // Let caller decide what to do (return or assign)
   }
-- 
2.43.0


From 871a5b7165ba3e6006603b25f3a90da2c217c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 02/17] fix: dense_map inserts take the new element before
 shifting

insert(), insert_hint(), insert_or_assign() and operator[] read the key and
value arguments after shifting elements, so an argument referring into the
same map was read from the wrong slot.  try_emplace() constructed a value on
top of the live object in the slot, leaking what that object owned.
---
 include/fast_containers/dense_map.ipp | 49 ++++++++++++++-------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index f1d4f5f..6b3d570 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -145,10 +145,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
-      });
+      [&value]() -> Value { return value; });
 }
 
 /**
@@ -190,10 +187,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_hint(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
-      });
+      [&value]() -> Value { return value; });
 }
 
 /**
@@ -223,10 +217,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::try_emplace(
         // Key exists - CRITICAL: don't construct value, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &args...](size_type idx) {
-        // Construct value IN-PLACE using provided arguments
-        // This is the key difference from insert() - no temporary value!
-        std::construct_at(&values_[idx], std::forward<Args>(args)...);
+      [&args...]() -> Value {
+        // Construct the value only when the key is absent
+        return Value(std::forward<Args>(args)...);
       });
 }
 
@@ -254,9 +247,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_or_assign(
         values_[idx] = std::forward<M>(value);
         return std::pair{iterator(this, idx), false};  // false = assignment
       },
-      [this, &value](size_type idx) {
-        // Insert new value
-        values_[idx] = std::forward<M>(value);
+      [&value]() -> Value {
+        // Convert to the stored type
+        return Value(std::forward<M>(value));
       });
 }
 
@@ -335,6 +328,11 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
   const auto pos = lower_bound_key(key);
   size_type idx = pos - keys_.begin();
 
+  // Take the new element before shifting: key may refer into this array, and
+  // constructing either may throw
+  Key new_key(key);
+  Value new_value{};
+
   // Shift elements to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
@@ -342,8 +340,8 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
                      values_.data() + size_ + 1);
 
   // Insert with default-constructed value
-  keys_[idx] = key;
-  values_[idx] = Value{};
+  keys_[idx] = std::move(new_key);
+  values_[idx] = std::move(new_value);
   ++size_;
 
   return values_[idx];
@@ -683,8 +681,8 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::transfer_suffix_from(
  * @param key Key to insert
  * @param on_exists Callback for when key exists: (size_type) -> pair<iterator,
  * bool> Can modify the existing value (insert_or_assign) or just return
- * @param on_insert Callback to insert value: (size_type) -> void
- *                  Uses assignment (insert) or construct_at (try_emplace)
+ * @param on_insert Callback to make the new value: () -> Value
+ *                  Called only when the key is absent
  * @return Pair of iterator to element and bool indicating insertion success
  */
 template <typename Key, typename Value, std::size_t Length, typename Compare,
@@ -707,17 +705,20 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     throw std::runtime_error("Cannot insert: array is full");
   }
 
+  // Take the new element before shifting: key and value may refer into this
+  // array, and constructing them may throw
+  Key new_key(key);
+  Value new_value = std::forward<OnInsert>(on_insert)();
+
   // Shift elements to the right to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
   std::move_backward(values_.data() + idx, values_.data() + size_,
                      values_.data() + size_ + 1);
 
-  // Insert the key
-  keys_[idx] = key;
-
-  // Let caller insert the value (assignment vs construct_at)
-  std::forward<OnInsert>(on_insert)(idx);
+  // Assign over the (live) objects in the freed slot
+  keys_[idx] = std::move(new_key);
+  values_[idx] = std::move(new_value);
 
   ++size_;
 
-- 
2.43.0


From e906cf582305f1c42cbf61ae5d32f7ff6e0d006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 03/17] fix: dense_map releases what removed elements own

erase() of the last element, clear() and assignment from a smaller map left
the removed keys and values in their slots, so whatever they owned (for
instance a shared_ptr) stayed alive until the slot was reused.  Slots of
trivially destructible types are left alone as before.
---
 include/fast_containers/dense_map.hpp | 21 ++++++++++++++++++++-
 include/fast_containers/dense_map.ipp |  3 +++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index af04266..2160f25 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -369,7 +369,10 @@ class dense_map {
   [[nodiscard]] bool empty() const { return size_ == 0; }
   [[nodiscard]] bool full() const { return size_ == Length; }
 
-  void clear() { size_ = 0; }
+  void clear() {
+    release_slots(0, size_);
+    size_ = 0;
+  }
 
   /**
    * Split this array at the given position, moving elements to output array.
@@ -438,6 +441,22 @@ class dense_map {
       size_type count);
 
  private:
+  /**
+   * Resets the vacated slots [first, last) so that removed elements give up
+   * what they own. Does nothing when first >= last or when there is nothing to
+   * give up (trivially destructible types).
+   */
+  void release_slots(size_type first, size_type last) {
+    for (size_type i = first; i < last; ++i) {
+      if constexpr (!std::is_trivially_destructible_v<Key>) {
+        keys_[i] = Key{};
+      }
+      if constexpr (!std::is_trivially_destructible_v<Value>) {
+        values_[i] = Value{};
+      }
+    }
+  }
+
   /**
    * Common implementation for all insert operations.
    * Handles key existence check, shifting, and insertion logic.
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 6b3d570..f07a439 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -69,6 +69,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     const dense_map& other) {
   if (this != &other) {
+    release_slots(other.size_, size_);
     size_ = other.size_;
     // Copy only the active elements
     if (size_ > 0) {
@@ -96,6 +97,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     dense_map&& other) noexcept {
   if (this != &other) {
+    release_slots(other.size_, size_);
     size_ = other.size_;
     // Move the active elements
     if (size_ > 0) {
@@ -273,6 +275,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::erase(iterator pos) {
   std::move(values_.data() + idx + 1, values_.data() + size_,
             values_.data() + idx);
   --size_;
+  release_slots(size_, size_ + 1);
 
   // Return iterator to element following the erased element
   // (same index, since everything shifted left)
-- 
2.43.0


From 51ee8eca4a64f580b6ad49fa9eaf06c7b85483a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 04/17] fix: btree insert that splits a leaf takes the new
 element first

The value was obtained after the leaf had been split: an argument referring
into the tree was read after it had been moved from, and a value constructor
that threw left the new leaf out of the index.
---
 include/fast_containers/btree.ipp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index d385db1..4f1d01e 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -846,6 +846,11 @@ std::pair<typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::split_leaf_and_insert(leaf_node* leaf, const Key& key,
                                         GetValue&& get_value) {
+  // Take the new element before touching the tree: key may refer into the leaf
+  // being split, and constructing the value may throw
+  const Key new_key(key);
+  auto value = std::forward<GetValue>(get_value)();
+
   // Create new leaf for right half
   leaf_node* new_leaf = allocate_leaf_node();
 
@@ -873,24 +878,22 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Get first key of new leaf for promotion
   const Key& promoted_key = new_leaf->data.begin()->first;
 
-  // Determine target leaf
-  leaf_node* target_leaf = comp_(key, promoted_key) ? leaf : new_leaf;
+  // Insert promoted key into parent (before the new element, so that the new
+  // leaf is reachable if inserting the element throws)
+  insert_into_parent(leaf, promoted_key, new_leaf);
 
-  // Get value on-demand after determining target leaf
-  // This preserves try_emplace's optimization
-  auto value = std::forward<GetValue>(get_value)();
+  // Determine target leaf
+  leaf_node* target_leaf = comp_(new_key, promoted_key) ? leaf : new_leaf;
 
   // Insert the new key-value pair into appropriate leaf
-  auto [leaf_it, inserted] = target_leaf->data.insert(key, std::move(value));
+  auto [leaf_it, inserted] =
+      target_leaf->data.insert(new_key, std::move(value));
 
   // Key is guaranteed not to exist (checked by insert_impl before calling)
   assert(inserted && "split_leaf_and_insert: key should not exist in tree");
 
   size_++;
 
-  // Insert promoted key into parent
-  insert_into_parent(leaf, promoted_key, new_leaf);
-
   // If we inserted into the left half, update parent key if necessary
   if (target_leaf == leaf) {
     const Key& new_left_min = leaf->data.begin()->first;
@@ -947,7 +950,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // If we inserted at the beginning and leaf has a parent, update parent key
   if (leaf_it == leaf->data.begin() && leaf->parent != nullptr) {
-    update_parent_key_recursive(leaf, key);
+    update_parent_key_recursive(leaf, leaf_it->first);
   }
 
   return {iterator(leaf, leaf_it), true};
-- 
2.43.0


From 6c0c29bd2c428565410d73e055b7daf960a30565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 05/17] fix: failed allocations no longer leak nodes or leave
 clear() dangling

clear() freed the tree before allocating the new root, the copy constructor
leaked its nodes when an insertion threw, and a node whose construction threw
was never returned to the allocator.
---
 include/fast_containers/btree.ipp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 4f1d01e..1e920df 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -58,8 +58,14 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Always allocate an empty root leaf, then copy all elements
 
   // Copy all elements using insert (use const iterators)
-  for (const_iterator it = other.begin(); it != other.end(); ++it) {
-    insert(it->first, it->second);
+  try {
+    for (const_iterator it = other.begin(); it != other.end(); ++it) {
+      insert(it->first, it->second);
+    }
+  } catch (...) {
+    // The destructor does not run for a partly constructed tree
+    deallocate_tree();
+    throw;
   }
 }
 
@@ -714,7 +720,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::allocate_leaf_node() {
   using leaf_alloc_traits = std::allocator_traits<decltype(leaf_alloc_)>;
   leaf_node* node = leaf_alloc_.allocate(1);
-  leaf_alloc_traits::construct(leaf_alloc_, node);
+  try {
+    leaf_alloc_traits::construct(leaf_alloc_, node);
+  } catch (...) {
+    leaf_alloc_.deallocate(node, 1);
+    throw;
+  }
   return node;
 }
 
@@ -730,7 +741,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   using internal_alloc_traits =
       std::allocator_traits<decltype(internal_alloc_)>;
   internal_node* node = internal_alloc_.allocate(1);
-  internal_alloc_traits::construct(internal_alloc_, node, leaf_children);
+  try {
+    internal_alloc_traits::construct(internal_alloc_, node, leaf_children);
+  } catch (...) {
+    internal_alloc_.deallocate(node, 1);
+    throw;
+  }
   return node;
 }
 
@@ -774,11 +790,12 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     // Just clear the root leaf's data
     leaf_root_->data.clear();
   } else {
+    // Allocate new empty leaf root first (the allocation may throw)
+    leaf_node* new_root = allocate_leaf_node();
+
     // Deallocate internal tree and reset to empty leaf root
     deallocate_internal_subtree(internal_root_);
-
-    // Allocate new empty leaf root
-    leaf_root_ = allocate_leaf_node();
+    leaf_root_ = new_root;
     root_is_leaf_ = true;
     leftmost_leaf_ = leaf_root_;
     rightmost_leaf_ = leaf_root_;
-- 
2.43.0


From 05de76849e034f07dc71aece509994117c859c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 06/17] fix: a failed node allocation during a split leaves the
 btree unchanged

The internal nodes a split needs were allocated after the leaf had been
split; when that failed, the new leaf was missing from the index and its
elements could no longer be found.  Allocate them before changing anything.
---
 include/fast_containers/btree.hpp | 23 ++++++++++-
 include/fast_containers/btree.ipp | 66 ++++++++++++++++++++++++++-----
 2 files changed, 77 insertions(+), 12 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index 1618cd6..2e01c74 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -1040,10 +1040,28 @@ class btree {
    * If node has no parent, creates a new root.
    *
    * Templated to handle both leaf_node and internal_node children.
+   * Takes the nodes it needs from spare_nodes.
    */
   template <typename NodeType>
   void insert_into_parent(NodeType* left_child, const Key& key,
-                          NodeType* right_child);
+                          NodeType* right_child, internal_node*& spare_nodes);
+
+  /**
+   * Allocates the internal nodes that adding a child to parent will need (none
+   * if parent has space), so that a failed allocation leaves the tree as it
+   * was. Returns them in order of use, chained through their parent pointers.
+   */
+  internal_node* allocate_nodes_for_split(internal_node* parent);
+
+  /**
+   * Takes the first node off a chain made by allocate_nodes_for_split().
+   */
+  static internal_node* take_spare_node(internal_node*& spare_nodes) {
+    internal_node* node = spare_nodes;
+    spare_nodes = node->parent;
+    node->parent = nullptr;
+    return node;
+  }
 
   /**
    * Split a full internal node.
@@ -1051,7 +1069,8 @@ class btree {
    * Returns a reference to the promoted key and pointer to the new node.
    * The key reference points to the first key in the new node's children.
    */
-  std::pair<const Key&, internal_node*> split_internal(internal_node* node);
+  std::pair<const Key&, internal_node*> split_internal(
+      internal_node* node, internal_node*& spare_nodes);
 
   /**
    * Update parent's key for a child node to match its current minimum.
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 1e920df..9e905f2 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -868,8 +868,16 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   const Key new_key(key);
   auto value = std::forward<GetValue>(get_value)();
 
-  // Create new leaf for right half
+  // Create new leaf for right half, and the internal nodes the split needs,
+  // while the tree is untouched (the allocations may throw)
   leaf_node* new_leaf = allocate_leaf_node();
+  internal_node* spare_nodes = nullptr;
+  try {
+    spare_nodes = allocate_nodes_for_split(leaf->parent);
+  } catch (...) {
+    deallocate_leaf_node(new_leaf);
+    throw;
+  }
 
   // Calculate split point (ceil(LeafNodeSize / 2))
   const size_type split_point = (LeafNodeSize + 1) / 2;
@@ -897,7 +905,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // Insert promoted key into parent (before the new element, so that the new
   // leaf is reachable if inserting the element throws)
-  insert_into_parent(leaf, promoted_key, new_leaf);
+  insert_into_parent(leaf, promoted_key, new_leaf, spare_nodes);
 
   // Determine target leaf
   leaf_node* target_leaf = comp_(new_key, promoted_key) ? leaf : new_leaf;
@@ -927,6 +935,43 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   return {iterator(target_leaf, leaf_it), true};
 }
 
+// allocate_nodes_for_split
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+               Allocator>::internal_node*
+btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+      Allocator>::allocate_nodes_for_split(internal_node* parent) {
+  internal_node* first = nullptr;
+  internal_node** tail = &first;
+
+  try {
+    // One node for each full ancestor, bottom up
+    internal_node* node = parent;
+    for (; node != nullptr; node = node->parent) {
+      const bool children_are_leaves = node->children_are_leaves;
+      const size_type count = children_are_leaves
+                                  ? node->leaf_children.size()
+                                  : node->internal_children.size();
+      if (count < InternalNodeSize) {
+        return first;
+      }
+      *tail = allocate_internal_node(children_are_leaves);
+      tail = &(*tail)->parent;
+    }
+    // All ancestors are full (or there are none): a new root as well
+    *tail = allocate_internal_node(parent == nullptr);
+  } catch (...) {
+    while (first != nullptr) {
+      deallocate_internal_node(take_spare_node(first));
+    }
+    throw;
+  }
+  return first;
+}
+
 // insert_impl
 template <typename Key, typename Value, std::size_t LeafNodeSize,
           std::size_t InternalNodeSize, typename Compare,
@@ -981,7 +1026,8 @@ template <typename Key, typename Value, std::size_t LeafNodeSize,
 template <typename NodeType>
 void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
            Allocator>::insert_into_parent(NodeType* left_child, const Key& key,
-                                          NodeType* right_child) {
+                                          NodeType* right_child,
+                                          internal_node*& spare_nodes) {
   // Helper lambda to get appropriate children array reference
   auto get_children = [](internal_node* node) -> auto& {
     if constexpr (std::is_same_v<NodeType, leaf_node>) {
@@ -1005,8 +1051,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // Case 1: left_child is root - create new root
   if (left_child->parent == nullptr) {
-    constexpr bool children_are_leaves = std::is_same_v<NodeType, leaf_node>;
-    internal_node* new_root = allocate_internal_node(children_are_leaves);
+    internal_node* new_root = take_spare_node(spare_nodes);
 
     auto& children = get_children(new_root);
     auto [it, inserted] = children.insert(get_left_key(left_child), left_child);
@@ -1029,7 +1074,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Check if parent is full
   if (parent_children.size() >= InternalNodeSize) {
     // Need to split parent
-    auto [promoted_key, new_parent] = split_internal(parent);
+    auto [promoted_key, new_parent] = split_internal(parent, spare_nodes);
 
     // Determine which parent to insert into
     internal_node* target_parent =
@@ -1041,7 +1086,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     assert(inserted && "Insert into non-full parent should succeed");
 
     // Recursively insert promoted key into grandparent
-    insert_into_parent(parent, promoted_key, new_parent);
+    insert_into_parent(parent, promoted_key, new_parent, spare_nodes);
   } else {
     // Parent has space - insert normally
     right_child->parent = parent;
@@ -1059,9 +1104,10 @@ std::pair<const Key&,
           typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
                          SearchModeT, Allocator>::internal_node*>
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
-      Allocator>::split_internal(internal_node* node) {
-  // Create new internal node
-  internal_node* new_node = allocate_internal_node(node->children_are_leaves);
+      Allocator>::split_internal(internal_node* node,
+                                 internal_node*& spare_nodes) {
+  // Use one of the internal nodes set aside for this split
+  internal_node* new_node = take_spare_node(spare_nodes);
 
   // Calculate split point
   const size_type split_point = (InternalNodeSize + 1) / 2;
-- 
2.43.0


From c93c7fe1a690f6bbe12037e35e3991c398169c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 07/17] fix: btree move assignment and swap carry the
 allocators along

Both exchanged the nodes but not the pool allocators that own them, although
the allocators ask for propagation on move assignment: nodes were later freed
into (and could outlive) the wrong pool.  The pool allocators now also ask for
propagation on swap, and move assignment between unequal allocators that do
not propagate moves the elements instead of the nodes.
---
 include/fast_containers/btree.ipp             | 27 +++++++++++++++++++
 .../fast_containers/hugepage_allocator.hpp    |  1 +
 .../multi_size_hugepage_allocator.hpp         |  1 +
 .../policy_based_hugepage_allocator.hpp       |  3 ++-
 4 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 9e905f2..b3e8e11 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -128,9 +128,28 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::operator=(btree&& other) noexcept {
   if (this != &other) {
+    constexpr bool propagate =
+        std::allocator_traits<Allocator>::propagate_on_container_move_assignment::
+            value;
+    if constexpr (!propagate) {
+      if (leaf_alloc_ != other.leaf_alloc_ ||
+          internal_alloc_ != other.internal_alloc_) {
+        // The allocators stay put and cannot free each other's nodes
+        *this = other;
+        other.clear();
+        return *this;
+      }
+    }
+
     // Deallocate existing tree (including root)
     deallocate_tree();
 
+    // The nodes must be freed through the allocators they came from
+    if constexpr (propagate) {
+      leaf_alloc_ = std::move(other.leaf_alloc_);
+      internal_alloc_ = std::move(other.internal_alloc_);
+    }
+
     // Move other's resources to this
     root_is_leaf_ = other.root_is_leaf_;
     if (root_is_leaf_) {
@@ -205,6 +224,14 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     }
   }
 
+  // The nodes must be freed through the allocators they came from
+  if constexpr (std::allocator_traits<
+                    Allocator>::propagate_on_container_swap::value) {
+    using std::swap;
+    swap(leaf_alloc_, other.leaf_alloc_);
+    swap(internal_alloc_, other.internal_alloc_);
+  }
+
   // Swap other members
   std::swap(root_is_leaf_, other.root_is_leaf_);
   std::swap(size_, other.size_);
diff --git a/include/fast_containers/hugepage_allocator.hpp b/include/fast_containers/hugepage_allocator.hpp
index 34b58fa..bb6dd99 100644
--- a/include/fast_containers/hugepage_allocator.hpp
+++ b/include/fast_containers/hugepage_allocator.hpp
@@ -52,6 +52,7 @@ class HugePageAllocator {
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;
 
   // Since n==1 is required, these are compile-time constants
diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index c6cfb0e..7526a76 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -61,6 +61,7 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;  // Stateful allocator
 
   /**
diff --git a/include/fast_containers/policy_based_hugepage_allocator.hpp b/include/fast_containers/policy_based_hugepage_allocator.hpp
index 055cdcf..f3f8471 100644
--- a/include/fast_containers/policy_based_hugepage_allocator.hpp
+++ b/include/fast_containers/policy_based_hugepage_allocator.hpp
@@ -131,6 +131,7 @@ class PolicyBasedHugePageAllocator {
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;
 
   // Cache line size for alignment (typical x86-64 cache line)
@@ -264,7 +265,7 @@ class PolicyBasedHugePageAllocator {
   [[nodiscard]] const PoolPolicy& get_policy() const { return policy_; }
 
  private:
-  const PoolPolicy policy_;  // NOLINT(readability-identifier-naming)
+  PoolPolicy policy_;  // NOLINT(readability-identifier-naming)
 
   // Allow rebind to access policy_
   template <typename, typename>
-- 
2.43.0


From 9af3a91f0edf8a6dc1b4fd075d846a7023323680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 08/17] fix: a moved-from MultiSizeHugePageAllocator keeps its
 pool

The implicit move left a null pool behind, so moving a btree that uses this
allocator crashed when the moved-from tree allocated its empty root.
---
 .../fast_containers/multi_size_hugepage_allocator.hpp    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index 7526a76..3166c4a 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -73,6 +73,15 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       std::shared_ptr<MultiSizeHugePagePool> pool)
       : pool_(std::move(pool)) {}
 
+  /**
+   * Copy constructor and assignment (share pool with other allocator).
+   * Declaring them also makes moves copy, so that a moved-from allocator stays
+   * usable.
+   */
+  MultiSizeHugePageAllocator(const MultiSizeHugePageAllocator& other) = default;
+  MultiSizeHugePageAllocator& operator=(
+      const MultiSizeHugePageAllocator& other) = default;
+
   /**
    * Copy constructor (different type).
    *
-- 
2.43.0


From b1ca5ea243a53c995b87665d94d47fabd92a05c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 09/17] fix: MultiSizeHugePageAllocator rejects sizes that
 overflow

n * sizeof(T) wrapped around for huge n and a small block was returned.
---
 include/fast_containers/multi_size_hugepage_allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index 3166c4a..5d88a4b 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -5,7 +5,9 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 
 #include "multi_size_hugepage_pool.hpp"
 
@@ -106,6 +108,10 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    if (n > std::numeric_limits<size_type>::max() / sizeof(T)) {
+      throw std::bad_array_new_length();
+    }
+
     const size_type bytes = n * sizeof(T);
     void* ptr = pool_->allocate(bytes, alignof(T));
 
-- 
2.43.0


From e231b7a9dfb74306f37e87d2a4e472d39558362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 10/17] fix: pools serve requests larger than the growth size

HugePagePool grew by exactly growth_size even when the request did not fit in
that: the remaining-bytes counter wrapped around and blocks were handed out
past the end of the mapping.  Requests whose size computations overflow now
fail with std::bad_alloc.
---
 include/fast_containers/hugepage_pool.hpp     | 30 ++++++++++++++-----
 .../multi_size_hugepage_pool.hpp              |  7 +++++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index ff35ce7..a693524 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -6,8 +6,11 @@
 
 #include <sys/mman.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
+#include <new>
 #include <stdexcept>
 #include <vector>
 
@@ -52,6 +55,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   static constexpr size_type hugepage_size = 2UL * 1024 * 1024;  // 2MB
+  static constexpr size_type page_size = 4096;  // Minimum alignment of a region
 
   struct memory_region {
     std::byte* base = nullptr;
@@ -124,7 +128,9 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
                         bool use_hugepages = true,
                         size_type growth_size = 64UL * 1024 * 1024)
       : initial_size_(initial_size), growth_size_(growth_size) {
-    // Allocate initial region
+    // Allocate initial region (with room for its entry, so that no failure can
+    // lose it)
+    regions_.reserve(1);
     memory_region initial_region;
 
     // Try hugepages first if requested
@@ -191,9 +197,14 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
         (current + alignment - 1) & ~(static_cast<uintptr_t>(alignment) - 1);
     size_type padding = aligned - current;
 
+    if (bytes > std::numeric_limits<size_type>::max() - alignment) {
+      throw std::bad_alloc();
+    }
+
     // Grow pool if needed
     if (bytes_remaining_ < bytes + padding) {
-      grow();
+      // Regions start on a page boundary: only a larger alignment needs padding
+      grow(alignment > page_size ? bytes + alignment : bytes);
       // After growth, recalculate alignment from new next_free_
       current = reinterpret_cast<uintptr_t>(next_free_);
       aligned =
@@ -302,20 +313,25 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   /**
-   * Grow the pool by allocating a new region of growth_size_.
+   * Grow the pool by allocating a new region of growth_size_, or of min_size
+   * if that is more.
    * Called when current region is exhausted.
    */
-  void grow() {
+  void grow(size_type min_size) {
     memory_region new_region;
+    const size_type region_size = std::max(growth_size_, min_size);
+
+    // Make room for the entry first, so that no failure can lose the region
+    regions_.reserve(regions_.size() + 1);
 
     if (using_hugepages_) {
-      new_region = allocate_hugepages_region(growth_size_);
+      new_region = allocate_hugepages_region(region_size);
       if (new_region.base == nullptr) {
         // Hugepages no longer available, fall back to regular
-        new_region = allocate_regular_region(growth_size_);
+        new_region = allocate_regular_region(region_size);
       }
     } else {
-      new_region = allocate_regular_region(growth_size_);
+      new_region = allocate_regular_region(region_size);
     }
 
     regions_.push_back(new_region);
diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index c8cde2a..b92c46a 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -6,7 +6,9 @@
 
 #include <bit>
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 #include <unordered_map>
 
 #include "hugepage_pool.hpp"
@@ -122,6 +124,11 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    // Larger requests have no power-of-2 size class
+    if (bytes > std::numeric_limits<size_type>::max() / 2 + 1) {
+      throw std::bad_alloc();
+    }
+
     const size_type size_class = get_size_class(bytes);
 
     // Get or create pool for this size class
-- 
2.43.0


From a37bf2004dd1257aa03e26454c2f306626481459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 11/17] fix: HugePagePool reuses a freed block only where it
 fits

The free list ignored sizes and alignments: a pool shared by containers with
different node types (or used for different sizes) handed out freed blocks
that were too small, so blocks overlapped, or not aligned as requested.
---
 include/fast_containers/hugepage_pool.hpp | 43 +++++++++++++++++------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index a693524..c1d07fd 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -108,7 +108,12 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
   const size_type initial_size_;  // NOLINT(readability-identifier-naming)
   const size_type growth_size_;   // NOLINT(readability-identifier-naming)
   bool using_hugepages_ = false;
-  void* free_list_head_ = nullptr;  // Head of intrusive free list
+  // Intrusive free list of the blocks of one size
+  struct free_list {
+    size_type bytes = 0;
+    void* head = nullptr;
+  };
+  std::vector<free_list> free_lists_;  // One for each block size in use
   stats stats_;
 
  public:
@@ -178,14 +183,18 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
-    // Try to allocate from free list first
-    if (free_list_head_ != nullptr) {
-      void* ptr = free_list_head_;
-      free_list_head_ = *reinterpret_cast<void**>(ptr);
+    // Try to allocate from free list first: the first block that is aligned
+    void** link = &free_list_for(bytes).head;
+    while (*link != nullptr) {
+      void* ptr = *link;
+      if (reinterpret_cast<uintptr_t>(ptr) % alignment == 0) {
+        *link = *reinterpret_cast<void**>(ptr);
 
-      stats_.record_allocation(bytes);
+        stats_.record_allocation(bytes);
 
-      return ptr;
+        return ptr;
+      }
+      link = reinterpret_cast<void**>(ptr);
     }
 
     // Allocate from pool
@@ -228,7 +237,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
    * Deallocate raw memory.
    *
    * @param ptr Pointer to memory to deallocate
-   * @param bytes Number of bytes (for statistics tracking)
+   * @param bytes Number of bytes (as passed to allocate())
    */
   void deallocate(void* ptr, size_type bytes) {
     if (ptr == nullptr || bytes == 0) {
@@ -236,8 +245,9 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     }
 
     // Add to intrusive free list
-    *reinterpret_cast<void**>(ptr) = free_list_head_;
-    free_list_head_ = ptr;
+    free_list& list = free_list_for(bytes);
+    *reinterpret_cast<void**>(ptr) = list.head;
+    list.head = ptr;
 
     stats_.record_deallocation(bytes);
   }
@@ -312,6 +322,19 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
   [[nodiscard]] size_type get_peak_usage() const { return stats_.peak_usage; }
 
  private:
+  /**
+   * Free list for blocks of the given size (added when first allocating that
+   * size, so that deallocation does not allocate).
+   */
+  free_list& free_list_for(size_type bytes) {
+    for (free_list& list : free_lists_) {
+      if (list.bytes == bytes) {
+        return list;
+      }
+    }
+    return free_lists_.emplace_back(bytes);
+  }
+
   /**
    * Grow the pool by allocating a new region of growth_size_, or of min_size
    * if that is more.
-- 
2.43.0


From 79862b694ea5c66db9beab7c2a844b34475c4967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 12/17] fix: MultiSizeHugePagePool reports the pages it got,
 not those asked for

using_hugepages() is documented to tell whether any pool is using hugepages
but returned the requested setting.
---
 include/fast_containers/multi_size_hugepage_pool.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index b92c46a..7ae9f0a 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <bit>
 #include <cstddef>
 #include <limits>
@@ -169,7 +170,11 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
    *
    * @return true if hugepages were successfully enabled
    */
-  [[nodiscard]] bool using_hugepages() const { return use_hugepages_; }
+  [[nodiscard]] bool using_hugepages() const {
+    return std::any_of(
+        pools_.begin(), pools_.end(),
+        [](const auto& entry) { return entry.second->using_hugepages(); });
+  }
 
   /**
    * Get number of active size classes (pools created).
-- 
2.43.0


From 7b084474531aec1b71783334bc38401993ec9d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 13/17] fix: a size class whose pool cannot be created is not
 recorded

When creating a pool threw, a null entry stayed behind and was reported as an
active size class.
---
 include/fast_containers/multi_size_hugepage_pool.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index 7ae9f0a..d22b6fe 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -11,6 +11,7 @@
 #include <memory>
 #include <new>
 #include <unordered_map>
+#include <utility>
 
 #include "hugepage_pool.hpp"
 
@@ -133,15 +134,16 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
     const size_type size_class = get_size_class(bytes);
 
     // Get or create pool for this size class
-    auto& pool = pools_[size_class];
-    if (!pool) {
-      pool = std::make_unique<HugePagePool>(
+    auto it = pools_.find(size_class);
+    if (it == pools_.end()) {
+      auto pool = std::make_unique<HugePagePool>(
           initial_size_per_pool_, use_hugepages_, growth_size_per_pool_);
+      it = pools_.emplace(size_class, std::move(pool)).first;
     }
 
     // Allocate from size-specific pool
     // Each pool only handles uniform-sized blocks, so free list works!
-    return pool->allocate(size_class, alignment);
+    return it->second->allocate(size_class, alignment);
   }
 
   /**
-- 
2.43.0


From 486af7cc9752afefd48bdfee0187d030d67094f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 14/17] fix: n + iterator works for dense_map iterators

---
 include/fast_containers/dense_map.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index 2160f25..d6759b1 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -607,6 +607,11 @@ class dense_map {
       return dense_map_iterator(array_, index_ + n);
     }
 
+    friend dense_map_iterator operator+(difference_type n,
+                                        const dense_map_iterator& it) {
+      return it + n;
+    }
+
     dense_map_iterator operator-(difference_type n) const {
       return dense_map_iterator(array_, index_ - n);
     }
@@ -661,18 +666,6 @@ class dense_map {
   };
 };
 
-// Non-member operator+ for iterator + difference
-template <typename Key, typename Value, std::size_t Length, typename Compare,
-          SearchMode SearchModeT, bool IsConst>
-typename dense_map<Key, Value, Length, Compare,
-                   SearchModeT>::template dense_map_iterator<IsConst>
-operator+(typename dense_map<Key, Value, Length, Compare, SearchModeT>::
-              template dense_map_iterator<IsConst>::difference_type n,
-          const typename dense_map<Key, Value, Length, Compare, SearchModeT>::
-              template dense_map_iterator<IsConst>& it) {
-  return it + n;
-}
-
 }  // namespace kressler::fast_containers
 
 // Include implementation
-- 
2.43.0


From be7029e022f37734f341c69c1d673dbdff3f22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 15/17] fix: btree insert_or_assign makes the value from the
 argument as it was passed

An argument of another type was copied or moved into a temporary of that
type first, so an lvalue reached the value's constructor as an rvalue, and
types that cannot be copied could not be passed at all.
---
 include/fast_containers/btree.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index b3e8e11..7fd9c71 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -529,9 +529,9 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
         pos->second = std::forward<M>(value);
         return std::pair{iterator(leaf, pos), false};
       },
-      [&value]() {
+      [&value]() -> Value {
         // Forward the value for insertion
-        return std::forward<M>(value);
+        return Value(std::forward<M>(value));
       });
 }
 
-- 
2.43.0


From 37dd1da378c944a26b99d29403d322a5b90c0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:40 +0000
Subject: [PATCH 16/17] fix: dense_map kept resources in slots whose elements
 moved elsewhere

Moving an element need not take away what it owns (types without move
operations copy), so splitting, transferring and moving maps left copies
alive in the unused slots of the source.
---
 include/fast_containers/dense_map.ipp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index f07a439..8780810 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -52,7 +52,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::dense_map(
               values_.data());
   }
   // Leave other in valid empty state
-  other.size_ = 0;
+  other.clear();
 }
 
 /**
@@ -106,7 +106,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
                 values_.data());
     }
     // Leave other in valid empty state
-    other.size_ = 0;
+    other.clear();
   }
   return *this;
 }
@@ -522,6 +522,7 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::split_at(
     std::move(values_.data() + split_idx, values_.data() + size_,
               output.values_.data());
     output.size_ = num_to_move;
+    release_slots(split_idx, size_);
   }
 
   // Update this array's size
@@ -587,6 +588,7 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::transfer_prefix_from(
     std::move(source.values_.data() + count,
               source.values_.data() + source.size_, source.values_.data());
   }
+  source.release_slots(source.size_ - count, source.size_);
 
   // Update sizes
   size_ += count;
@@ -658,6 +660,7 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::transfer_suffix_from(
             source.keys_.data() + source.size_, keys_.data());
   std::move(source.values_.data() + suffix_start,
             source.values_.data() + source.size_, values_.data());
+  source.release_slots(suffix_start, source.size_);
 
   // Update sizes (no need to shift source - we took from the end)
   size_ += count;
-- 
2.43.0


From 9ebe14e1a475cb4f1a690177a41bb287f9f710b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:40 +0000
Subject: [PATCH 17/17] fix: dense_map erase and clear threw half way when a
 default value could not be made

Resetting the vacated slot is the last step; without a default value the
slot is left as it is until its next use.
---
 include/fast_containers/dense_map.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index d6759b1..80a47c3 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -446,13 +446,21 @@ class dense_map {
    * what they own. Does nothing when first >= last or when there is nothing to
    * give up (trivially destructible types).
    */
-  void release_slots(size_type first, size_type last) {
+  void release_slots(size_type first, size_type last) noexcept {
     for (size_type i = first; i < last; ++i) {
-      if constexpr (!std::is_trivially_destructible_v<Key>) {
-        keys_[i] = Key{};
-      }
-      if constexpr (!std::is_trivially_destructible_v<Value>) {
-        values_[i] = Value{};
+      release_slot(keys_[i]);
+      release_slot(values_[i]);
+    }
+  }
+
+  template <typename T>
+  static void release_slot(T& slot) noexcept {
+    if constexpr (!std::is_trivially_destructible_v<T>) {
+      try {
+        slot = T{};
+        // NOLINTNEXTLINE(bugprone-empty-catch)
+      } catch (...) {
+        // No default value to be had: the slot is reset when it is next used
       }
     }
   }
-- 
2.43.0

