From aae89cc0e37ca07fc2063c509e490bea84ce2f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 01/30] fix: ConcatenateNode records the changed element's own
 previous value

propagate() logged the value at the start of the operand's block as the old
value of every update, so revert() restored wrong values and the reported
diff was wrong.
---
 dwave/optimization/src/nodes/manipulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index b6584dc..7c3413a 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -160,7 +160,7 @@ void ConcatenateNode::propagate(State& state) const {
             auto update_it = view_it + diff.index;
             ssize_t buffer_index = &*update_it - ptr->buffer.data();
             assert(*update_it == diff.old);
-            ptr->updates.emplace_back(buffer_index, *view_it, diff.value);
+            ptr->updates.emplace_back(buffer_index, *update_it, diff.value);
             *update_it = diff.value;
         }
     }
-- 
2.43.0


From cc7cc16261932e606b7361eb189eac8efc3fb22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 02/30] fix: DisjointBitSetsNode requires each element to be in
 exactly one set

The explicit initial state was only checked for the total number of set bits,
so a state with one element in two sets and another in none was accepted.
---
 dwave/optimization/src/nodes/collections.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 6dc0ce3..779d4c3 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -244,7 +244,7 @@ struct DisjointBitSetsNodeData : NodeStateData {
         data.resize(primary_set_size * num_disjoint_sets, 0);
         diffs.resize(num_disjoint_sets);
 
-        ssize_t num_elements = 0;
+        std::vector<ssize_t> num_sets(primary_set_size, 0);  // the number of sets containing each element
 
         for (ssize_t set_index = 0; set_index < num_disjoint_sets; ++set_index) {
             if (static_cast<ssize_t>(contents[set_index].size()) != primary_set_size) {
@@ -256,13 +256,15 @@ struct DisjointBitSetsNodeData : NodeStateData {
                     throw std::invalid_argument("provided set must be binary valued");
                 }
                 data[set_index * primary_set_size + el_index] = contents[set_index][el_index];
-                num_elements += static_cast<ssize_t>(contents[set_index][el_index]);
+                num_sets[el_index] += static_cast<ssize_t>(contents[set_index][el_index]);
             }
         }
 
-        if (num_elements != primary_set_size) {
-            throw std::invalid_argument(
-                    "disjoint set elements must be in exactly one bit-set once");
+        for (const ssize_t& count : num_sets) {
+            if (count != 1) {
+                throw std::invalid_argument(
+                        "disjoint set elements must be in exactly one bit-set once");
+            }
         }
     }
 
-- 
2.43.0


From 690db790b23330e0a8b86a9c00a983ceea6999f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 03/30] fix: IntegerNode default move with a negative lower
 bound

The bounds were converted to an unsigned type.
---
 dwave/optimization/src/nodes/numbers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/numbers.cpp b/dwave/optimization/src/nodes/numbers.cpp
index 674dca8..8070f84 100644
--- a/dwave/optimization/src/nodes/numbers.cpp
+++ b/dwave/optimization/src/nodes/numbers.cpp
@@ -140,7 +140,8 @@ bool IntegerNode::set_value(State& state, ssize_t i, int value) const {
 
 void IntegerNode::default_move(State& state, RngAdaptor& rng) const {
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
-    std::uniform_int_distribution<std::size_t> value_dist(lower_bound_, upper_bound_);
+    std::uniform_int_distribution<ssize_t> value_dist(static_cast<ssize_t>(lower_bound_),
+                                                       static_cast<ssize_t>(upper_bound_));
     this->set_value(state, index_dist(rng), value_dist(rng));
 }
 
-- 
2.43.0


From 738420b555dadfa9dbd891f754f8540596e7f68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 04/30] fix: is_integer must not write to shared static storage

States of one model may be read from several threads.
---
 dwave/optimization/src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/utils.cpp b/dwave/optimization/src/utils.cpp
index e2ff43d..a3e80fb 100644
--- a/dwave/optimization/src/utils.cpp
+++ b/dwave/optimization/src/utils.cpp
@@ -78,7 +78,7 @@ void deduplicate_diff(std::vector<Update>& diff) {
 }
 
 bool is_integer(const double& value) {
-    static double dummy = 0;
+    double dummy = 0;
     return std::modf(value, &dummy) == 0.0;
 }
 
-- 
2.43.0


From 08652d471d4157e479e096c702d3516b36fac213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 05/30] fix: SquareNode value bounds for arrays that may be
 negative

min() squared the smallest operand value and max() the largest one, so for an
operand in [-5, 2] the reported range was [25, 4].
---
 dwave/optimization/src/nodes/mathematical.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index de0a08d..ec65177 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1797,8 +1797,8 @@ double UnaryOpNode<std::negate<double>>::max() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::max() const {
-    const double max = array_ptr_->max();
-    if (std::abs(max) >= std::sqrt(Array::max())) {
+    const double max = std::max<double>(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
+    if (max >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
@@ -1846,8 +1846,12 @@ double UnaryOpNode<std::negate<double>>::min() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::min() const {
-    const double min = array_ptr_->min();
-    if (std::abs(min) >= std::sqrt(Array::max())) {
+    const double low = array_ptr_->min();
+    const double high = array_ptr_->max();
+    if (low <= 0 && high >= 0) return 0;
+
+    const double min = std::min<double>(std::abs(low), std::abs(high));
+    if (min >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
-- 
2.43.0


From b638b98530ad4a4a882685face82340d1bedd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:41 +0000
Subject: [PATCH 06/30] fix: ConcatenateNode does not link to operands before
 they are all validated

If a later operand was rejected, the earlier ones kept a dangling pointer to the
destroyed node in their successors.
---
 dwave/optimization/src/nodes/manipulation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index 7c3413a..4bc68c1 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -45,7 +45,10 @@ ConcatenateNode::ConcatenateNode(std::span<ArrayNode*> array_ptrs, const ssize_t
             throw std::invalid_argument(
                 "concatenate input arrays cannot be dynamic");
         }
+    }
 
+    // all of the checks are done, so now it's safe to add ourselves as a successor
+    for (auto it = array_ptrs.begin(), stop = array_ptrs.end(); it != stop; ++it) {
         this->add_predecessor((*it));
     }
 }
-- 
2.43.0


From a40efdafdbfb533b6a7489b773a529763c71231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:45 +0000
Subject: [PATCH 07/30] fix: NaryOpNode does not link to operands before they
 are all validated

If a later operand was rejected, the earlier ones kept a dangling pointer to the
destroyed node in their successors.
---
 .../dwave-optimization/nodes/mathematical.hpp | 10 ++++++++-
 dwave/optimization/src/nodes/mathematical.cpp | 21 +++++++++++++------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
index 6e453ef..db284a7 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
@@ -159,7 +159,12 @@ class NaryOpNode : public ArrayOutputMixin<ArrayNode> {
     explicit NaryOpNode(ArrayNode* node_ptr);
     explicit NaryOpNode(std::span<ArrayNode*> node_ptrs);
     explicit NaryOpNode(ArrayNode* node_ptr, std::convertible_to<ArrayNode*> auto... node_ptrs)
-            : NaryOpNode(node_ptr) {
+            : ArrayOutputMixin(node_ptr->shape()) {
+        // check everything before we add ourselves as a successor to anything
+        check_operand(node_ptr);
+        (check_operand(node_ptrs), ...);
+
+        add_node(node_ptr);
         (add_node(node_ptrs), ...);
     }
 
@@ -189,6 +194,9 @@ class NaryOpNode : public ArrayOutputMixin<ArrayNode> {
  private:
     using op = BinaryOp;
 
+    // Throws if the given node cannot be used as an operand
+    void check_operand(const ArrayNode* node_ptr) const;
+
     std::vector<Array*> operands_;
 };
 
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index ec65177..80b7bd5 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -494,18 +494,17 @@ ArrayNode* nonempty(std::span<ArrayNode*> node_ptrs) {
 template <class BinaryOp>
 NaryOpNode<BinaryOp>::NaryOpNode(std::span<ArrayNode*> node_ptrs)
         : ArrayOutputMixin(nonempty(node_ptrs)->shape()) {
+    // check everything before we add ourselves as a successor to anything
+    for (const ArrayNode* ptr : node_ptrs) {
+        check_operand(ptr);
+    }
     for (ArrayNode* ptr : node_ptrs) {
         add_node(ptr);
     }
 }
 
 template <class BinaryOp>
-void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
-    if (this->topological_index() >= 0 && node_ptr->topological_index() >= 0 &&
-        this->topological_index() < node_ptr->topological_index()) {
-        throw std::logic_error("this operation would invalidate the topological ordering");
-    }
-
+void NaryOpNode<BinaryOp>::check_operand(const ArrayNode* node_ptr) const {
     if (node_ptr->dynamic()) {
         throw std::invalid_argument("arrays must not be dynamic");
     }
@@ -513,6 +512,16 @@ void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
     if (!std::ranges::equal(this->shape(), node_ptr->shape())) {
         throw std::invalid_argument("arrays must all be the same shape");
     }
+}
+
+template <class BinaryOp>
+void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
+    if (this->topological_index() >= 0 && node_ptr->topological_index() >= 0 &&
+        this->topological_index() < node_ptr->topological_index()) {
+        throw std::logic_error("this operation would invalidate the topological ordering");
+    }
+
+    check_operand(node_ptr);
 
     this->add_predecessor(node_ptr);
     operands_.emplace_back(node_ptr);
-- 
2.43.0


From 3a310211e87f180e674706f7283814e0151bfede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:45 +0000
Subject: [PATCH 08/30] fix: PartialReduceNode validates its axis before using
 it

The output shape was computed by erasing the given axis before the axis was
checked, and more than one axis was only rejected after the node had already
been added to its predecessor's successors.
---
 dwave/optimization/src/nodes/mathematical.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 80b7bd5..34f679b 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -776,6 +776,9 @@ template class NaryOpNode<std::plus<double>>;
 // PartialReduceNode *****************************************************************
 std::vector<ssize_t> partial_reduce_shape(const std::span<const ssize_t> input_shape,
                                           const ssize_t axis) {
+    if (axis < 0 || axis >= static_cast<ssize_t>(input_shape.size())) {
+        throw std::invalid_argument("Axes should be integers between 0 and n_dim - 1");
+    }
     std::vector<ssize_t> shape(input_shape.begin(), input_shape.end());
     shape.erase(shape.begin() + axis);
     return shape;
@@ -823,10 +826,6 @@ PartialReduceNode<BinaryOp>::PartialReduceNode(ArrayNode* node_ptr, std::span<co
     }
 
     assert(this->ndim() == array_ptr_->ndim() - 1);
-    ssize_t axis = axes_[0];
-    if (axis < 0 || axis >= array_ptr_->ndim()) {
-        throw std::invalid_argument("Axes should be integers between 0 and n_dim - 1");
-    }
 
     add_predecessor(node_ptr);
 }
@@ -846,11 +845,7 @@ PartialReduceNode<std::plus<double>>::PartialReduceNode(ArrayNode* array_ptr, co
 
 template <>
 PartialReduceNode<std::plus<double>>::PartialReduceNode(ArrayNode* array_ptr, std::span<const ssize_t> axes)
-        : PartialReduceNode(array_ptr, nonempty(axes)[0], 0) {
-    if (axes.size() != 1){
-        throw std::invalid_argument("Partial sum supports only one axis");
-    }
-}
+        : PartialReduceNode(array_ptr, axes, 0) {}
 
 template <class BinaryOp>
 PartialReduceNode<BinaryOp>::PartialReduceNode(ArrayNode* array_ptr,
-- 
2.43.0


From beb99ca3ca91433c0d29d785405bed535b96df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:45 +0000
Subject: [PATCH 09/30] fix: PermutationNode rejects orders that can index out
 of range

The order's maximum was compared with the array's total size and its minimum
was not checked at all.
---
 dwave/optimization/src/nodes/indexing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 36f4615..5af455c 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1627,7 +1627,7 @@ PermutationNode::PermutationNode(ArrayNode* array_ptr, ArrayNode* order_ptr)
     if (array_shape[0] != order_ptr_->size()) {
         throw std::invalid_argument("array shape and order size mismatch");
     }
-    if (order_ptr_->max() > array_ptr_->size()) {
+    if (order_ptr_->min() < 0 || order_ptr_->max() >= array_shape[0]) {
         throw std::invalid_argument("order may have values out of range");
     }
 
-- 
2.43.0


From 4b5c903566649373f5d109ebeacabff1f371aa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:45 +0000
Subject: [PATCH 10/30] fix: BasicIndexingNode with steps and non-contiguous
 views

The start of a slice of a dynamic array was multiplied by the slice's step, so
e.g. x[1::2] read other elements than the ones asked for and past the end of the
parent. Updates to non-contiguous views were mapped with a formula that only
works for one-dimensional views, so changes to e.g. x[1:3, 1:3] were dropped or
reported for the wrong element.
---
 dwave/optimization/src/nodes/indexing.cpp | 57 ++++++++++++-----------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 5af455c..3c14922 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -15,6 +15,7 @@
 #include "dwave-optimization/nodes/indexing.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <ranges>
 #include <unordered_set>
 
@@ -1193,7 +1194,8 @@ void BasicIndexingNode::initialize_state(State& state) const {
 }
 
 ssize_t BasicIndexingNode::dynamic_start(ssize_t slice_start) const {
-    return slice_start * strides_[0] / static_cast<ssize_t>(sizeof(double));
+    // Our own strides include the slice's step, so we need to use those of the parent
+    return slice_start * array_ptr_->strides()[0] / static_cast<ssize_t>(sizeof(double));
 }
 
 ssize_t get_smallest_size_during_diff(ssize_t initial_size, const std::span<const Update> diff) {
@@ -1446,45 +1448,46 @@ void BasicIndexingNode::propagate(State& state) const {
 
         if (dynamic()) update_dynamic_shape(state);
 
-        const ssize_t start = this->start_;
-        // distance between pointers in the parent array. Relies on parent
-        // being contiguous
-        assert(array_ptr_->contiguous());
-        const ssize_t stop = &*this->end(state) - &*this->begin(state);
+        // The first element of the parent that we care about
+        ssize_t start = this->start_;
+        if (dynamic()) start += dynamic_start(axis0_slice_.value().start);
 
         // A few sanity checks...
         assert(start >= 0);
-        assert(stop >= start);
         assert(this->ndim() > 0);  // if we're not contiguous we cannot be a scalar
-        // some strided stop after the end to make the math work out.
-        assert(stop <= array_ptr_->size(state) + this->strides()[0] / this->itemsize());
 
-        for (auto [index, old, value] : array_ptr_->diff(state)) {
-            if (index < start) continue;  // before the range we care about
-            if (index >= stop) continue;  // after the range we care about
+        // The number of rows may change while we walk through the parent's diff, so for dynamic
+        // arrays we bound the first axis by the slice rather than by our current shape.
+        ssize_t num_rows = this->shape()[0];
+        if (dynamic()) {
+            num_rows = axis0_slice_.value().fit(std::numeric_limits<ssize_t>::max()).size();
+        }
 
-            index -= start;
+        for (const auto& [index, old, value] : array_ptr_->diff(state)) {
+            if (index < start) continue;  // before the range we care about
 
+            // The distance from our first element. Relies on the parent being contiguous, so each
+            // stride is larger than the range covered by all of the subsequent axes.
+            ssize_t remainder = index - start;
+            ssize_t view_index = 0;
             bool skip = false;
-            for (ssize_t stride : this->strides()) {
-                assert(stride % this->itemsize() == 0);
-                // again, we rely on the parent being contiguous!
-                assert(array_ptr_->contiguous());
-                const ssize_t div = stride / this->itemsize();
-
-                if (index % div) {
-                    // we are "between" steps
-                    skip = true;
+            for (ssize_t axis = 0; axis < this->ndim(); ++axis) {
+                const ssize_t div = this->strides()[axis] / this->itemsize();
+                const ssize_t length = axis ? this->shape()[axis] : num_rows;
+                const ssize_t coordinate = remainder / div;
+
+                if (coordinate >= length) {
+                    skip = true;  // after the range we care about on this axis
                     break;
                 }
 
-                index /= div;
+                view_index = view_index * length + coordinate;
+                remainder %= div;
             }
-            if (skip) continue;
-
-            assert(index >= 0 && index < this->size(state));
+            // skip anything that's outside of our range, or "between" steps
+            if (skip || remainder) continue;
 
-            diff.emplace_back(index, old, value);
+            diff.emplace_back(view_index, old, value);
         }
     } else {
         assert(false && "not yet implemented");
-- 
2.43.0


From 2de71cf72b1e0199017929e2857c6e948b9c2380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:32 +0000
Subject: [PATCH 11/30] fix: every node's state data can be copied

Several state data classes did not override copy(), so copying a state sliced
them down to the base class and using the copy was undefined behaviour.
---
 dwave/optimization/src/nodes/_state.hpp       |  5 ++++
 dwave/optimization/src/nodes/flow.cpp         |  4 ++++
 dwave/optimization/src/nodes/indexing.cpp     | 23 ++++++++++++++-----
 dwave/optimization/src/nodes/manipulation.cpp |  5 ++++
 dwave/optimization/src/nodes/mathematical.cpp |  9 ++++++++
 .../src/nodes/quadratic_model.cpp             |  4 ++++
 dwave/optimization/src/nodes/testing.cpp      |  8 +++++++
 7 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/dwave/optimization/src/nodes/_state.hpp b/dwave/optimization/src/nodes/_state.hpp
index f10d9df..4d8ea61 100644
--- a/dwave/optimization/src/nodes/_state.hpp
+++ b/dwave/optimization/src/nodes/_state.hpp
@@ -196,6 +196,11 @@ class ScalarNodeStateData : public NodeStateData {
 
     const double* buff() const { return &update.value; }
     void commit() { update.old = update.value; }
+
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<ScalarNodeStateData>(*this);
+    }
+
     std::span<const Update> diff() const {
         return std::span<const Update>(&update, update.old != update.value);
     }
diff --git a/dwave/optimization/src/nodes/flow.cpp b/dwave/optimization/src/nodes/flow.cpp
index 73d527f..1926a12 100644
--- a/dwave/optimization/src/nodes/flow.cpp
+++ b/dwave/optimization/src/nodes/flow.cpp
@@ -50,6 +50,10 @@ struct WhereNodeData : ArrayNodeStateData {
     explicit WhereNodeData(std::vector<double>&& values) noexcept
             : ArrayNodeStateData(std::move(values)) {}
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<WhereNodeData>(*this);
+    }
+
     // Update the buffer according to the given diffs
     void apply_diffs(const Array::View condition, std::span<const Update> condition_diff,
                      const Array::View x, std::span<const Update> x_diff, const Array::View y,
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 3c14922..9a3a8c1 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -37,6 +37,10 @@ struct IndexingNodeData : NodeStateData {
         old_size = offsets.size();
     }
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<IndexingNodeData>(*this);
+    }
+
     void revert() {
         // If we shrank, we need to undo the resizing
         if (old_size > static_cast<ssize_t>(offsets.size())) {
@@ -99,6 +103,10 @@ struct AdvancedIndexingNodeData : NodeStateData {
         old_data_size = data.size();
     }
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<AdvancedIndexingNodeData>(*this);
+    }
+
     void revert() {
         // If we shrank, we need to undo the resizing
         if (old_offsets_size > static_cast<ssize_t>(offsets_.size())) {
@@ -1046,19 +1054,22 @@ BasicIndexingNode::BasicIndexingNode(ArrayNode* array_ptr, IndexParser_&& parser
 struct BasicIndexingNodeData : NodeStateData {
     BasicIndexingNodeData(const BasicIndexingNode* node) {
         if (node->dynamic()) {
-            dynamic_shape = std::make_unique<ssize_t[]>(node->ndim());
             // First dim will be set later
-            std::copy(node->shape().begin(), node->shape().end(), dynamic_shape.get());
+            dynamic_shape.assign(node->shape().begin(), node->shape().end());
         }
     };
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<BasicIndexingNodeData>(*this);
+    }
+
     std::vector<Update> diff;
     // Used to track diffs for dynamic size
     ssize_t previous_size;
 
-    // The state dependent shape when indexing a dynamic array. Will be nullptr when
+    // The state dependent shape when indexing a dynamic array. Will be empty when
     // predecessor array is fixed shape.
-    std::unique_ptr<ssize_t[]> dynamic_shape = nullptr;
+    std::vector<ssize_t> dynamic_shape;
 
     Slice fitted_first_slice;
 
@@ -1514,7 +1525,7 @@ void BasicIndexingNode::revert(State& state) const {
 ssize_t BasicIndexingNode::size(const State& state) const {
     if (size_ >= 0) return size_;
 
-    return Array::shape_to_size(ndim_, data_ptr<BasicIndexingNodeData>(state)->dynamic_shape.get());
+    return Array::shape_to_size(ndim_, data_ptr<BasicIndexingNodeData>(state)->dynamic_shape.data());
 }
 
 SizeInfo BasicIndexingNode::sizeinfo() const {
@@ -1595,7 +1606,7 @@ ssize_t BasicIndexingNode::size_diff(const State& state) const {
 std::span<const ssize_t> BasicIndexingNode::shape(const State& state) const {
     if (size_ >= 0) return BasicIndexingNode::shape();
 
-    return std::span<const ssize_t>(data_ptr<BasicIndexingNodeData>(state)->dynamic_shape.get(),
+    return std::span<const ssize_t>(data_ptr<BasicIndexingNodeData>(state)->dynamic_shape.data(),
                                     ndim_);
 }
 
diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index 4bc68c1..a3ae6ce 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -225,6 +225,11 @@ void ReshapeNode::revert(State& state) const {}  // stateless node
 class SizeNodeData : public ScalarNodeStateData {
  public:
     explicit SizeNodeData(std::integral auto value) : ScalarNodeStateData(value) {}
+
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<SizeNodeData>(*this);
+    }
+
     void set(std::integral auto value) { ScalarNodeStateData::set(value); }
 };
 
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 34f679b..661950b 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -474,6 +474,10 @@ struct NaryOpNodeData : public ArrayNodeStateData {
                             std::vector<Array::const_iterator> iterators)
             : ArrayNodeStateData(std::move(values)), iterators(std::move(iterators)) {}
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<NaryOpNodeData>(*this);
+    }
+
     // used to avoid reallocating memory for predecessor iterators every propagation
     std::vector<Array::const_iterator> iterators;
 };
@@ -1149,6 +1153,11 @@ struct ReduceNodeData : NodeStateData {
         values.old = values.value;
         extra.commit();
     }
+
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<ReduceNodeData>(*this);
+    }
+
     void revert() {
         values.value = values.old;
         extra.revert();
diff --git a/dwave/optimization/src/nodes/quadratic_model.cpp b/dwave/optimization/src/nodes/quadratic_model.cpp
index 1f9a49b..b3acb6c 100644
--- a/dwave/optimization/src/nodes/quadratic_model.cpp
+++ b/dwave/optimization/src/nodes/quadratic_model.cpp
@@ -48,6 +48,10 @@ struct QuadraticModelNodeData : public NodeStateData {
         value_old = value;
         effective_changes_.clear();
     }
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<QuadraticModelNodeData>(*this);
+    }
+
     void revert() {
         value = value_old;
         for (auto& change : effective_changes_) {
diff --git a/dwave/optimization/src/nodes/testing.cpp b/dwave/optimization/src/nodes/testing.cpp
index 6d20970..817ae96 100644
--- a/dwave/optimization/src/nodes/testing.cpp
+++ b/dwave/optimization/src/nodes/testing.cpp
@@ -26,6 +26,10 @@ class ArrayValidationNodeData : public dwave::optimization::NodeStateData {
     explicit ArrayValidationNodeData(Array::View data)
             : old_data(data.begin(), data.end()), current_data(data.begin(), data.end()) {}
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<ArrayValidationNodeData>(*this);
+    }
+
     std::vector<double> old_data;
     std::vector<double> current_data;
 };
@@ -217,6 +221,10 @@ class DynamicArrayTestingNodeData : public dwave::optimization::NodeStateData {
         old_shape = current_shape;
     }
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<DynamicArrayTestingNodeData>(*this);
+    }
+
     // Add one row to the data
     void grow(std::span<const double> values) {
         // Caller is responsible for mutating the `current_shape` to reflect the size
-- 
2.43.0


From 512073ea696a650352e21fdab650c42efb2bc73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:32 +0000
Subject: [PATCH 12/30] fix: AdvancedIndexingNode keeps its state-dependent
 shape in the state

The shape of a given state was written into the node itself, so asking for the
shape of one state changed the shape previously returned for another one.
---
 .../dwave-optimization/nodes/indexing.hpp        |  1 -
 dwave/optimization/src/nodes/indexing.cpp        | 16 +++++++---------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 79ef55d..557ab0b 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -124,7 +124,6 @@ class AdvancedIndexingNode : public ArrayNode {
     const ssize_t ndim_;
     std::unique_ptr<ssize_t[]> strides_;
     std::unique_ptr<ssize_t[]> shape_;
-    std::unique_ptr<ssize_t[]> dynamic_shape_;
 
     std::unique_ptr<ssize_t[]> array_item_strides_;
 
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 9a3a8c1..59ad8d1 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -189,6 +189,9 @@ struct AdvancedIndexingNodeData : NodeStateData {
     ssize_t old_offsets_size;
     ssize_t old_data_size;
 
+    // The state dependent shape, calculated when it's asked for. Only used when we're dynamic.
+    mutable std::vector<ssize_t> dynamic_shape;
+
  private:
     void delete_from_reverse(ssize_t index, ssize_t offset) {
         if (!maintain_reverse_offset_map) return;
@@ -480,13 +483,6 @@ AdvancedIndexingNode::AdvancedIndexingNode(ArrayNode* array_ptr, IndexParser_&&
             add_predecessor(std::get<ArrayNode*>(index));
         }
     }
-
-    if (dynamic()) {
-        // Copy over the shape to dynamic_shape_. Then the first index of dynamic_shape_
-        // will be rewritten as the output changes size.
-        dynamic_shape_ = std::make_unique<ssize_t[]>(ndim());
-        std::copy(shape_.get(), shape_.get() + ndim(), dynamic_shape_.get());
-    }
 }
 
 double const* AdvancedIndexingNode::buff(const State& state) const {
@@ -661,8 +657,10 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
     if (!dynamic()) return shape();
     assert(this->ndim() >= 1);
-    dynamic_shape_[0] = this->size(state) / (strides()[0] / itemsize());
-    return std::span<const ssize_t>(dynamic_shape_.get(), this->ndim());
+    auto& dynamic_shape = data_ptr<AdvancedIndexingNodeData>(state)->dynamic_shape;
+    dynamic_shape.assign(shape().begin(), shape().end());
+    dynamic_shape[0] = this->size(state) / (strides()[0] / itemsize());
+    return dynamic_shape;
 }
 
 std::pair<ssize_t, ssize_t> get_mapped_index(
-- 
2.43.0


From a3540effe25fd368955c0ef02374df2db22e9dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:28 +0000
Subject: [PATCH 13/30] fix: BinaryOpNode broadcasts a dynamic array that
 currently has one element

The current rather than the declared shapes decided how the operands are
combined. So when a dynamic operand had exactly one element, the result's shape
was that of the scalar, and growing from there read past the end of the scalar.
---
 dwave/optimization/src/nodes/mathematical.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 661950b..d1bbfaf 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -81,7 +81,7 @@ void BinaryOpNode<BinaryOp>::initialize_state(State& state) const {
     auto func = op();
     std::vector<double> values;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // This is the easy case - all we need to do is iterate over both as flat arrays
         values.reserve(lhs_ptr->size(state));
 
@@ -267,7 +267,7 @@ void BinaryOpNode<BinaryOp>::propagate(State& state) const {
     auto& values = ptr->buffer;
     auto& changes = ptr->updates;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // The easy case, just go through both predecessors making updates.
         if (lhs_ptr->diff(state).size() && rhs_ptr->diff(state).size()) {
             // Both modified
@@ -366,12 +366,10 @@ template <class BinaryOp>
 std::span<const ssize_t> BinaryOpNode<BinaryOp>::shape(const State& state) const {
     if (!this->dynamic()) return this->shape();
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-
     // we don't (yet) support other cases
-    assert(lhs_size == 1 || operands_[1]->size(state) == 1);
+    assert(operands_[0]->dynamic() != operands_[1]->dynamic());
 
-    return (lhs_size == 1) ? operands_[1]->shape(state) : operands_[0]->shape(state);
+    return operands_[0]->dynamic() ? operands_[0]->shape(state) : operands_[1]->shape(state);
 }
 
 template <class BinaryOp>
-- 
2.43.0


From 6ed66876170a25a544ddcfadc9e2a65862841d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:52 +0000
Subject: [PATCH 14/30] fix: in-place add and multiply do not corrupt the model

NaryAdd += and NaryMultiply *= linked to operands of another model, changed
a locked model, changed symbols that other symbols already use, and could
create a cycle (x += f(x), x += x).
---
 dwave/optimization/symbols.pyx | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index ce69812..e1c2328 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2161,8 +2161,16 @@ cdef class NaryAdd(ArraySymbol):
 
     def __iadd__(self, rhs):
         if isinstance(rhs, ArraySymbol):
-            self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
-            return self
+            if self.model is not rhs.model:
+                raise ValueError("mismatched parent models")
+            if self.model.is_locked():
+                raise RuntimeError("cannot add an operand to a symbol of a locked model")
+
+            # We can only act in-place if nothing else is already using our value. This
+            # also means that rhs cannot depend on self (other than by being self).
+            if self.node_ptr != (<ArraySymbol>rhs).node_ptr and not self.node_ptr.successors().size():
+                self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
+                return self
 
         return super().__iadd__(rhs)
 
@@ -2317,8 +2325,16 @@ cdef class NaryMultiply(ArraySymbol):
 
     def __imul__(self, rhs):
         if isinstance(rhs, ArraySymbol):
-            self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
-            return self
+            if self.model is not rhs.model:
+                raise ValueError("mismatched parent models")
+            if self.model.is_locked():
+                raise RuntimeError("cannot add an operand to a symbol of a locked model")
+
+            # We can only act in-place if nothing else is already using our value. This
+            # also means that rhs cannot depend on self (other than by being self).
+            if self.node_ptr != (<ArraySymbol>rhs).node_ptr and not self.node_ptr.successors().size():
+                self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
+                return self
 
         return super().__imul__(rhs)
 
-- 
2.43.0


From 825943002940ea2b7fcc9b91995fb201965425f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:52 +0000
Subject: [PATCH 15/30] fix: an objective or constraint must belong to the
 model

---
 dwave/optimization/_model.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 3ffc592..4f3803f 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -88,6 +88,8 @@ cdef class _Graph:
         """
         if value is None:
             raise ValueError("value cannot be None")
+        if value.model is not self:
+            raise ValueError("mismatched parent models")
         # TODO: shall we accept array valued constraints?
         self._graph.add_constraint(value.array_ptr)
         return value
@@ -456,6 +458,8 @@ cdef class _Graph:
         """
         if value is None:
             raise ValueError("value cannot be None")
+        if value.model is not self:
+            raise ValueError("mismatched parent models")
         if value.size() < 1:
             raise ValueError("the value of an empty array is ambiguous")
         if value.size() > 1:
-- 
2.43.0


From 82811d55f85645317a68bd06635429b7ef069c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:52 +0000
Subject: [PATCH 16/30] fix: node ids read from a file are range checked before
 use

---
 dwave/optimization/_model.pyx  | 6 ++++--
 dwave/optimization/symbols.pyx | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 4f3803f..439aa00 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -130,7 +130,7 @@ cdef class _Graph:
 
         if isinstance(file, str):
             with open(file, "rb") as f:
-                return cls.from_file(f)
+                return cls.from_file(f, check_header=check_header)
 
         prefix = b"DWNL"
 
@@ -185,11 +185,13 @@ cdef class _Graph:
             objective_buff = zf.read("objective.json")
             if objective_buff:
                 objective_id = json.loads(objective_buff)
-                if not isinstance(objective_id, int) or objective_id >= model.num_nodes():
+                if not isinstance(objective_id, int) or not 0 <= objective_id < model.num_nodes():
                     raise ValueError("objective must be an integer and a valid node id")
                 model.minimize(symbol_from_ptr(model, model._graph.nodes()[objective_id].get()))
 
             for cid in json.loads(zf.read("constraints.json")):
+                if not isinstance(cid, int) or not 0 <= cid < model.num_nodes():
+                    raise ValueError("constraints must be integers and valid node ids")
                 model.add_constraint(symbol_from_ptr(model, model._graph.nodes()[cid].get()))
 
             # Read any states that have been encoded
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index e1c2328..abd219e 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -516,6 +516,8 @@ cdef class AdvancedIndexing(ArraySymbol):
             for index in json.load(f):
                 if isinstance(index, numbers.Integral):
                     # lower topological index, so must exist
+                    if not 0 <= index < model.num_nodes():
+                        raise ValueError("unexpected index")
                     ptr = model._graph.nodes()[<Py_ssize_t>(index)].get()
                     indices.append(symbol_from_ptr(model, ptr))
                 elif isinstance(index, list):
-- 
2.43.0


From 2b520328076b7fcbdb01a5182a816ac46c0ed3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:52 +0000
Subject: [PATCH 17/30] fix: QuadraticModel coords must have two rows

---
 dwave/optimization/symbols.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index abd219e..a890fbe 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2622,6 +2622,8 @@ cdef class QuadraticModel(ArraySymbol):
         cdef double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
         cdef int[:, ::1] coords = np.ascontiguousarray(np.atleast_2d(quadratic[1]), dtype=np.intc)
 
+        if coords.shape[0] != 2:
+            raise ValueError("expected coords to have exactly two rows")
         if data.shape[0] != coords.shape[1]:
             # SciPy's error message
             raise ValueError("row, column, and data array must all be the same length")
-- 
2.43.0


From aa47f0530d5ee1980d64962158bf1dc7b5329eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:52 +0000
Subject: [PATCH 18/30] fix: scheduling generators do not change other symbols
 or the caller's array

---
 dwave/optimization/generators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 2948659..3c64e39 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -730,8 +730,8 @@ def flow_shop_scheduling(processing_times: numpy.typing.ArrayLike) -> Model:
 
             for job_j in range(num_jobs):
                 if job_j == 0:
-                    end_job_j = end_times[machine_m - 1][job_j]
-                    end_job_j += times[machine_m, :][order[job_j]]
+                    # do not add in-place, that would also change the previous machine's end time
+                    end_job_j = end_times[machine_m - 1][job_j] + times[machine_m, :][order[job_j]]
                     machine_m_times.append(end_job_j)
                 else:
                     end_job_j = maximum(end_times[machine_m - 1][job_j], machine_m_times[-1])
@@ -815,7 +815,7 @@ def job_shop_scheduling(times: numpy.typing.ArrayLike, machines: numpy.typing.Ar
         # In that case we reindex to 0. This is OK because we know from our earlier
         # checking that we're non-negative, so combined with .all() we must be
         # strictly positive
-        machines -= 1
+        machines = machines - 1  # not in-place, it may be the caller's array
 
         # the validity will be checked in the next for-loop
 
-- 
2.43.0


From 578bac72a182d71041b80ae52c3dd2b46e674ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:06 +0000
Subject: [PATCH 19/30] fix: States.from_file refuses states of decisions that
 do not match

---
 dwave/optimization/states.pyx  |  9 ++++----
 dwave/optimization/symbols.pyx | 39 ++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/states.pyx b/dwave/optimization/states.pyx
index c05760e..dd777ea 100644
--- a/dwave/optimization/states.pyx
+++ b/dwave/optimization/states.pyx
@@ -163,10 +163,11 @@ cdef class States:
         cdef _Graph model = Model.from_file(file, check_header=check_header)
         cdef States states = model.states
 
-        # Check that the model is compatible
-        for n0, n1 in zip(model.iter_symbols(), self._model().iter_symbols()):
-            # todo: replace with proper node quality testing once we have it
-            if not isinstance(n0, type(n1)):
+        # Check that the model is compatible. Only the decisions have a stored state
+        if model.num_decisions() != self._model().num_decisions():
+            raise ValueError("cannot load states into a model with mismatched decisions")
+        for n0, n1 in zip(model.iter_decisions(), self._model().iter_decisions()):
+            if not n0.equals(n1):
                 raise ValueError("cannot load states into a model with mismatched decisions")
 
         self.attach_states(move(states.detach_states()))
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index a890fbe..4beee16 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1192,6 +1192,15 @@ cdef class DisjointBitSets(Symbol):
             with zf.open(directory+f"set{i}", mode="w", force_zip64=True) as f:
                 np.save(f, arr, allow_pickle=False)
 
+    def equals(self, other):
+        # note: docstring inherited from Symbol.equals()
+        if not super().equals(other):
+            return False
+
+        cdef DisjointBitSets rhs = other
+        return (self.ptr.primary_set_size() == rhs.ptr.primary_set_size()
+                and self.ptr.num_disjoint_sets() == rhs.ptr.num_disjoint_sets())
+
     def num_disjoint_sets(self):
         """Return the number of disjoint sets in the symbol."""
         return self.ptr.num_disjoint_sets()
@@ -1445,6 +1454,15 @@ cdef class DisjointLists(Symbol):
             with zf.open(directory+f"list{i}", mode="w", force_zip64=True) as f:
                 np.save(f, arr, allow_pickle=False)
 
+    def equals(self, other):
+        # note: docstring inherited from Symbol.equals()
+        if not super().equals(other):
+            return False
+
+        cdef DisjointLists rhs = other
+        return (self.ptr.primary_set_size() == rhs.ptr.primary_set_size()
+                and self.ptr.num_disjoint_lists() == rhs.ptr.num_disjoint_lists())
+
     def num_disjoint_lists(self):
         """Return the number of disjoint lists in the symbol."""
         return self.ptr.num_disjoint_lists()
@@ -1699,6 +1717,15 @@ cdef class IntegerVariable(ArraySymbol):
 
         zf.writestr(directory + "shape.json", encoder.encode(shape_info))
 
+    def equals(self, other):
+        # note: docstring inherited from Symbol.equals()
+        if not super().equals(other):
+            return False
+
+        cdef IntegerVariable rhs = other
+        return (self.ptr.lower_bound() == rhs.ptr.lower_bound()
+                and self.ptr.upper_bound() == rhs.ptr.upper_bound())
+
     def lower_bound(self):
         """The lowest value allowed for the integer symbol."""
         return int(self.ptr.lower_bound())
@@ -2909,6 +2936,18 @@ cdef class SetVariable(ArraySymbol):
 
         zf.writestr(directory + "shape.json", encoder.encode(shape_info))
 
+    def equals(self, other):
+        # note: docstring inherited from Symbol.equals()
+        if not super().equals(other):
+            return False
+
+        cdef SetVariable rhs = other
+        cdef cppSizeInfo size = self.ptr.sizeinfo()
+        cdef cppSizeInfo rhs_size = rhs.ptr.sizeinfo()
+        return (self.ptr.max() == rhs.ptr.max()
+                and size.min == rhs_size.min
+                and size.max == rhs_size.max)
+
     def set_state(self, Py_ssize_t index, state):
         """Set the state of the set node.
 
-- 
2.43.0


From ceaedce01d67a0e75e96ab5789474f7be4249663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:12 +0000
Subject: [PATCH 20/30] fix: disjoint sets and lists without a saved state are
 loaded without a state

---
 dwave/optimization/symbols.pyx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 4beee16..0349726 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1176,6 +1176,13 @@ cdef class DisjointBitSets(Symbol):
         self.ptr.initialize_state((<States>self.model.states)._states[index], move(sets))
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
+        # check if there is any state data saved (it can be sparse)
+        try:
+            zf.getinfo(directory+"set0")
+        except KeyError:
+            # no state data encoded
+            return
+
         arrays = []
         for i in range(self.num_disjoint_sets()):
             with zf.open(directory+f"set{i}", mode="r") as f:
@@ -1438,6 +1445,13 @@ cdef class DisjointLists(Symbol):
         self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
+        # check if there is any state data saved (it can be sparse)
+        try:
+            zf.getinfo(directory+"list0")
+        except KeyError:
+            # no state data encoded
+            return
+
         arrays = []
         for i in range(self.num_disjoint_lists()):
             with zf.open(directory+f"list{i}", mode="r") as f:
-- 
2.43.0


From d32e3ad85670e719dca32a039a21b51bf57076ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:04 +0000
Subject: [PATCH 21/30] fix: the default move of an empty decision wrote
 outside its values

An index was drawn from [0, size - 1] also when the size is zero, where the
upper end wraps around.
---
 dwave/optimization/src/nodes/collections.cpp | 6 ++++++
 dwave/optimization/src/nodes/numbers.cpp     | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 779d4c3..a429236 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -343,6 +343,8 @@ void DisjointBitSetsNode::revert(State& state) const {
 }
 
 void DisjointBitSetsNode::default_move(State& state, RngAdaptor& rng) const {
+    if (primary_set_size_ == 0) return;  // there is nothing to move
+
     std::uniform_int_distribution<std::size_t> dist_sets(0, num_disjoint_sets_ - 1);
     std::uniform_int_distribution<std::size_t> dist_el(0, primary_set_size_ - 1);
 
@@ -665,6 +667,8 @@ void DisjointListsNode::pop_to_list(State& state, ssize_t from_list_index, ssize
 }
 
 void DisjointListsNode::default_move(State& state, RngAdaptor& rng) const {
+    if (primary_set_size_ == 0) return;  // there is nothing to move
+
     auto data = data_ptr<DisjointListStateData>(state);
 
     // choose a list to pop from (list_i) randomly weighted by how many items are in it,
@@ -748,6 +752,8 @@ ssize_t DisjointListNode::size_diff(const State& state) const {
 }
 
 void ListNode::default_move(State& state, RngAdaptor& rng) const {
+    if (this->size(state) == 0) return;  // there is nothing to move
+
     std::uniform_int_distribution<std::size_t> dist(0, this->size(state) - 1);
     // This might mean we're selecting the same variable twice.
     // But for large-ish lists that should be quite rare and anyway it's
diff --git a/dwave/optimization/src/nodes/numbers.cpp b/dwave/optimization/src/nodes/numbers.cpp
index 8070f84..b65a6a9 100644
--- a/dwave/optimization/src/nodes/numbers.cpp
+++ b/dwave/optimization/src/nodes/numbers.cpp
@@ -139,6 +139,8 @@ bool IntegerNode::set_value(State& state, ssize_t i, int value) const {
 }
 
 void IntegerNode::default_move(State& state, RngAdaptor& rng) const {
+    if (this->size(state) == 0) return;  // there is nothing to move
+
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
     std::uniform_int_distribution<ssize_t> value_dist(static_cast<ssize_t>(lower_bound_),
                                                        static_cast<ssize_t>(upper_bound_));
@@ -169,6 +171,8 @@ bool BinaryNode::unset(State& state, ssize_t i) const {
 }
 
 void BinaryNode::default_move(State& state, RngAdaptor& rng) const {
+    if (this->size(state) == 0) return;  // there is nothing to move
+
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
     this->flip(state, index_dist(rng));
 }
-- 
2.43.0


From 07971298abc69a61f1c28796bb54756f06523021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:08 +0000
Subject: [PATCH 22/30] fix: update every permuted element for permutations of
 1d and 3d+ arrays

PermutationNode::propagate() visited n elements per dimension, which is only
right for matrices: it missed elements of higher dimensional arrays and wrote
past the end of 1d ones.
---
 dwave/optimization/src/nodes/indexing.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 59ad8d1..82fa2b7 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1727,14 +1727,18 @@ void PermutationNode::propagate(State& state) const {
         const std::span<const ssize_t> strides = array_ptr_->strides();
         const double* start = array_ptr_->buff(state);
 
+        // `index` along `dim` selects, in each of the `outer` blocks spanned by the dimensions before
+        // `dim`, the `mul` consecutive elements spanned by the dimensions after `dim`
         ssize_t mul = std::pow(n, ndim - 1);
-        ssize_t step = 1;
+        ssize_t outer = 1;
 
         for (ssize_t dim = 0; dim < ndim; ++dim) {
             for (auto& [index, old, neo] : order_diff) {
                 ssize_t stride = strides[dim] / array_ptr_->itemsize();
 
-                for (ssize_t i = index * mul, end = i + step * n; i < end; i += step) {
+                for (ssize_t j = 0, stop = outer * mul; j < stop; ++j) {
+                    const ssize_t i = (j / mul * n + static_cast<ssize_t>(index)) * mul + j % mul;
+
                     old_offsets.emplace_back(offsets[i]);
 
                     offsets[i] += stride * (neo - old);
@@ -1751,7 +1755,7 @@ void PermutationNode::propagate(State& state) const {
             }
 
             mul /= n;
-            step *= n;
+            outer *= n;
         }
     }
 
-- 
2.43.0


From 109ad724e4cd87b121783bed8a825f4d3150d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 23/30] fix: bounds of substituted sizes

SizeInfo::substitute() applied an offset again when it was called again, rounded partial
steps down, and could report a minimum larger than the maximum.
---
 dwave/optimization/src/array.cpp | 110 +++++++++++++------------------
 1 file changed, 46 insertions(+), 64 deletions(-)

diff --git a/dwave/optimization/src/array.cpp b/dwave/optimization/src/array.cpp
index d4fb85a..30ed4bc 100644
--- a/dwave/optimization/src/array.cpp
+++ b/dwave/optimization/src/array.cpp
@@ -43,61 +43,63 @@ bool SizeInfo::operator==(const SizeInfo& other) const {
 }
 
 SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
-    if (max_depth <= 0) return *this;
+    // If our size is fixed, or the bounds were already substituted, then there is nothing to do.
+    if (max_depth <= 0 || !this->array_ptr || (this->min && this->max)) return *this;
 
+    // First get the bounds of our array's size.
     SizeInfo sizeinfo = this->array_ptr->sizeinfo();
-
-    // Check if substitution will do nothing, and return if so
-    constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
-    if (this->array_ptr == sizeinfo.array_ptr && sizeinfo.multiplier == 1 && sizeinfo.offset == 0 &&
-        this->min.value_or(-MAX) >= sizeinfo.min.value_or(MAX) &&
-        this->max.value_or(MAX) <= sizeinfo.max.value_or(-MAX)) {
-        return *this;
-    }
-
-    sizeinfo.multiplier *= this->multiplier;
-    assert((this->multiplier * sizeinfo.offset).denominator() == 1);
-    sizeinfo.offset = static_cast<ssize_t>(this->multiplier * sizeinfo.offset);
-    sizeinfo.offset += this->offset;
-
-    if (this->max) {
-        if (sizeinfo.max) {
-            sizeinfo.max = std::min<ssize_t>(*max, *sizeinfo.max);
+    if (sizeinfo.array_ptr && sizeinfo.array_ptr != this->array_ptr) {
+        if (max_depth > 1) {
+            // in the future we can/should do an iterative rather than recurisive
+            // version
+            sizeinfo = sizeinfo.substitute(max_depth - 1);
         } else {
-            sizeinfo.max = this->max;
+            const ssize_t offset = sizeinfo.offset;
+            if (sizeinfo.min) sizeinfo.min = std::max<ssize_t>(0, *sizeinfo.min + offset);
+            if (sizeinfo.max) sizeinfo.max = std::max<ssize_t>(0, *sizeinfo.max + offset);
         }
     }
 
-    if (this->min) {
-        if (sizeinfo.min) {
-            sizeinfo.min = std::max<ssize_t>(*(this->min), *sizeinfo.min);
-        } else {
-            sizeinfo.min = this->min;
-        }
+    // Then get our own bounds. We're monotone in our array's size, and because we count elements
+    // we round up.
+    auto multiply = [this](const ssize_t size) -> ssize_t {
+        const fraction product = this->multiplier * size;
+        return (product.numerator() + product.denominator() - 1) / product.denominator();
+    };
+    std::optional<ssize_t> min = this->min;
+    std::optional<ssize_t> max = this->max;
+    if (sizeinfo.min) min = std::max<ssize_t>(min.value_or(0), multiply(*sizeinfo.min));
+    if (sizeinfo.max) {
+        const ssize_t product = multiply(*sizeinfo.max);
+        max = std::min<ssize_t>(max.value_or(product), product);
     }
-
-    if (sizeinfo.min) {
-        if (this->multiplier != 1) {
-            sizeinfo.min = static_cast<ssize_t>(this->multiplier * *sizeinfo.min);
-        }
-        sizeinfo.min = std::max<ssize_t>(0, *sizeinfo.min + this->offset);
+    if (max) {
+        max = std::max<ssize_t>(0, *max + this->offset);
+        // arrays never have a negative size
+        if (!min) min = 0;
     }
-    if (sizeinfo.max) {
-        if (this->multiplier != 1) {
-            sizeinfo.max = static_cast<ssize_t>(this->multiplier * *sizeinfo.max);
-        }
-        sizeinfo.max = std::max<ssize_t>(0, *sizeinfo.max + this->offset);
+    if (min) min = std::max<ssize_t>(0, *min + this->offset);
+    if (min && max) min = std::min<ssize_t>(*min, *max);
+
+    // Finally, try to express our size in terms of the array that our array gets its size from.
+    // The rounding doesn't allow that in general.
+    const fraction offset = this->multiplier * sizeinfo.offset;
+    if (sizeinfo.array_ptr && offset.denominator() == 1 &&
+        (this->multiplier.numerator() == 1 || sizeinfo.multiplier.denominator() == 1)) {
+        sizeinfo.multiplier *= this->multiplier;
+        sizeinfo.offset = offset.numerator() + this->offset;
+    } else {
+        sizeinfo = *this;
     }
+    sizeinfo.min = min;
+    sizeinfo.max = max;
 
-    // Adjust the minimum based on the offset
-    if (sizeinfo.min && sizeinfo.max && sizeinfo.min == sizeinfo.max) {
-        sizeinfo.offset = *sizeinfo.min;
+    // There is only one possible size
+    if (min && min == max) {
+        sizeinfo.offset = *min;
         sizeinfo.multiplier = 0;
     }
 
-    // in the future we can/should do an iterative rather than recurisive
-    // version
-    if (max_depth > 1) return sizeinfo.substitute(max_depth - 1);
     return sizeinfo;
 }
 
@@ -169,28 +171,8 @@ bool array_shape_equal(const Array* lhs_ptr, const Array* rhs_ptr) {
     if (lhs_size == rhs_size) return true;
     if (lhs_size.array_ptr == nullptr || rhs_size.array_ptr == nullptr) return false;
 
-    // This first loop is redundant, but often we get diamond structures
-    // of predecessors so by going back together we might get to short circuit the
-    // dfs
-    while (lhs_size.array_ptr != lhs_ptr && rhs_size.array_ptr != rhs_ptr) {
-        lhs_ptr = lhs_size.array_ptr;
-        lhs_size = lhs_size.substitute();
-        rhs_ptr = rhs_size.array_ptr;
-        rhs_size = rhs_size.substitute();
-        if (lhs_size == rhs_size) return true;
-    }
-    while (lhs_size.array_ptr != lhs_ptr) {
-        lhs_ptr = lhs_size.array_ptr;
-        lhs_size = lhs_size.substitute();
-        if (lhs_size == rhs_size) return true;
-    }
-    while (rhs_size.array_ptr != rhs_ptr) {
-        rhs_ptr = rhs_size.array_ptr;
-        rhs_size = rhs_size.substitute();
-        if (lhs_size == rhs_size) return true;
-    }
-
-    return false;
+    // 100 is a magic number. It's how far back in the predecessor chain to check.
+    return lhs_size.substitute(100) == rhs_size.substitute(100);
 }
 bool array_shape_equal(const Array& lhs, const Array& rhs) {
     return array_shape_equal(&lhs, &rhs);
-- 
2.43.0


From 155ffba45fb727f9ceb318a8dccc97846477bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 24/30] fix: the size of an advanced index of rows counts every
 element of a row

---
 dwave/optimization/src/nodes/indexing.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 82fa2b7..9de5ff4 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -651,7 +651,18 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
     assert(predecessors().size() >= 2);
     assert(!dynamic_cast<ArrayNode*>(predecessors()[0])->dynamic() &&
            "sizeinfo for dynamic base arrays not supported");
-    return SizeInfo(dynamic_cast<ArrayNode*>(predecessors()[1]));
+    const ArrayNode* index_ptr = dynamic_cast<ArrayNode*>(predecessors()[1]);
+
+    // Each index selects one or more elements of the base array
+    auto num_per_row = [](std::span<const ssize_t> shape) -> ssize_t {
+        return std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
+    };
+    const ssize_t index_num_per_row = num_per_row(index_ptr->shape());
+    if (!index_num_per_row) return SizeInfo(0);
+
+    auto sizeinfo = SizeInfo(index_ptr);
+    sizeinfo.multiplier = fraction(num_per_row(this->shape()), index_num_per_row);
+    return sizeinfo;
 }
 
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
-- 
2.43.0


From 8973fb07447ee848b9cbea90fa14e14a016c7cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 25/30] fix: the size of a slice counts whole rows, partial
 steps and empty slices

---
 dwave/optimization/src/nodes/indexing.cpp | 108 ++++++++++------------
 1 file changed, 51 insertions(+), 57 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 9de5ff4..e546174 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1540,68 +1540,62 @@ ssize_t BasicIndexingNode::size(const State& state) const {
 SizeInfo BasicIndexingNode::sizeinfo() const {
     if (size_ >= 0) return SizeInfo(size_);
 
-    auto sizeinfo = SizeInfo(array_ptr_);
-
-    // Get the multiplier on the size of the array
-    {
-        // Determine how many elements are in each row of the array. Where "row" here means the
-        // first axis.
-        // We use the fact that the parent is contiguous to simplify this calculation.
-        assert(array_ptr_->contiguous());
-        assert(this->ndim() > 0);
-        ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
-
+    assert(array_ptr_->contiguous());
+    assert(this->ndim() > 0);
+    assert(axis0_slice_);            // dynamic so this should be present
+    assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
+
+    // Determine how many elements are in each row of the resulting array. Where "row" here means
+    // the first axis. Here we may be strided, so we use the shape to figure it out.
+    auto shape = this->shape();
+    const ssize_t num_per_row =
+            std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
+
+    // Every row is empty
+    if (!num_per_row) return SizeInfo(0);
+
+    // Determine how many elements are in each row of the array.
+    // We use the fact that the parent is contiguous to simplify this calculation.
+    const ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
+
+    // This is where having Slice's values be optional<ssize_t> would be useful.
+    // For now let's just hard code it.
+    constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
+
+    const ssize_t start = axis0_slice_->start;
+    const ssize_t stop = axis0_slice_->stop;
+    const ssize_t step = axis0_slice_->step;
+
+    // A positive start or a negative stop removes rows from the array. A negative start or a
+    // positive stop imposes a max on the number of rows (before the removal).
+    const ssize_t num_removed = std::max<ssize_t>(start, 0) - std::min<ssize_t>(stop, 0);
+    std::optional<ssize_t> max_rows;
+    if (start < 0) max_rows = -start;
+    if (stop >= 0 && stop != MAX) max_rows = std::min<ssize_t>(max_rows.value_or(MAX), stop);
+    if (max_rows) max_rows = (*max_rows + step - 1) / step;
+
+    const bool monotone = start >= 0 || stop < 0 || stop == MAX;
+    if (monotone && num_removed % step == 0 && (step == 1 || num_per_row == 1)) {
+        auto sizeinfo = SizeInfo(array_ptr_);
         sizeinfo.multiplier /= array_num_per_row;
-
-        // Determine how many elements are in each row of the resulting array.
-        // Here we may be strided, so we use the shape to figure it out.
-        auto shape = this->shape();
-        ssize_t num_per_row =
-                std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
-
         sizeinfo.multiplier *= num_per_row;
-
-        // handle the step
-        assert(axis0_slice_);            // dynamic so this should be present
-        assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
-
-        sizeinfo.multiplier /= axis0_slice_->step;
+        sizeinfo.multiplier /= step;
+        sizeinfo.offset = -num_per_row * (num_removed / step);
+        if (max_rows) sizeinfo.max = num_per_row * *max_rows;
+        return sizeinfo;
     }
 
-    // Get the offset and bounds
-    {
-        assert(axis0_slice_);  // dynamic so this should be present
-
-        if (axis0_slice_->step > 0) {
-            if (axis0_slice_->start > 0) {
-                // having a positive start imposes a size offset
-                assert((sizeinfo.multiplier * axis0_slice_->start).denominator() == 1);
-                sizeinfo.offset -= static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->start);
-
-            } else if (axis0_slice_->start < 0) {
-                // a negative start imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * -1 * axis0_slice_->start);
-            }
-
-            // This is where having Slice's values be optional<ssize_t> would be useful.
-            // For now let's just hard code it.
-            constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
-
-            if (axis0_slice_->stop > 0 && axis0_slice_->stop != MAX) {
-                // having a positive stop imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
-            } else if (axis0_slice_->stop < 0) {
-                // having a negative stop imposes a size offset
-                sizeinfo.offset += static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
-            }
-
-        } else {
-            // this is currently disallowed by the constructor
-            assert(false && "not implemented yet");
-            unreachable();
-        }
+    // Otherwise our size isn't a multiple of the array's size plus an offset. So only give bounds.
+    auto sizeinfo = SizeInfo(this, 0, std::nullopt);
+    if (monotone) {
+        auto num_rows = [&](const ssize_t size) -> ssize_t {
+            return axis0_slice_->fit(size / array_num_per_row).size();
+        };
+        const SizeInfo array_sizeinfo = SizeInfo(array_ptr_).substitute(100);
+        if (array_sizeinfo.min) sizeinfo.min = num_per_row * num_rows(*array_sizeinfo.min);
+        if (array_sizeinfo.max) max_rows = num_rows(*array_sizeinfo.max);
     }
-
+    if (max_rows) sizeinfo.max = num_per_row * *max_rows;
     return sizeinfo;
 }
 
-- 
2.43.0


From 6fa31f0c1ae6ba7b14e0919e25d4da0ffdec4802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 26/30] fix: the minimum of a max and the maximum of a min with
 an initial value over a possibly empty array

---
 dwave/optimization/src/nodes/mathematical.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index d1bbfaf..34c776e 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1308,6 +1308,12 @@ bool ReduceNode<BinaryOp>::integral() const {
     unreachable();
 }
 
+// Whether the array can ever be empty
+bool possibly_empty(const Array* array_ptr) {
+    if (const ssize_t size = array_ptr->size(); size >= 0) return !size;
+    return !array_ptr->sizeinfo().substitute(100).min.value_or(0);
+}
+
 template <class BinaryOp>
 double ReduceNode<BinaryOp>::max() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
@@ -1323,6 +1329,8 @@ double ReduceNode<BinaryOp>::max() const {
         return array_ptr_->max();
     }
     if constexpr (std::is_same<BinaryOp, functional::min<double>>::value) {
+        // an empty array reduces to init
+        if (init.has_value() && possibly_empty(array_ptr_)) return init.value();
         if (init.has_value()) return std::min(init.value(), array_ptr_->max());
         return array_ptr_->max();
     }
@@ -1406,6 +1414,8 @@ double ReduceNode<BinaryOp>::min() const {
     // These can results in inf. If we fix that in initialization/propagation we
     // should also fix it here.
     if constexpr (std::is_same<BinaryOp, functional::max<double>>::value) {
+        // an empty array reduces to init
+        if (init.has_value() && possibly_empty(array_ptr_)) return init.value();
         if (init.has_value()) return std::max(init.value(), array_ptr_->min());
         return array_ptr_->min();
     }
-- 
2.43.0


From 07affb6ee2101d192e3cf18d43a9095999624fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:35 +0000
Subject: [PATCH 27/30] fix: slices of dynamic arrays with rows, and strided
 slices with a negative start or stop, report their changes

---
 .../dwave-optimization/nodes/indexing.hpp     |  3 ++
 dwave/optimization/src/nodes/indexing.cpp     | 41 ++++++++++---------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 557ab0b..4a0875e 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -231,6 +231,9 @@ class BasicIndexingNode : public ArrayNode {
     void update_dynamic_shape(State& state) const;
     ssize_t dynamic_start(ssize_t slice_start) const;
 
+    // Whether the diff is calculated by comparing the view to its previous values.
+    bool caches_output() const;
+
     // We could do dynamic_cast<Array*>(predecessors[0]), but since there's
     // only one we just go ahead and hold a direct pointer
     const Array* array_ptr_;
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index e546174..051ab7e 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1206,7 +1206,7 @@ void BasicIndexingNode::initialize_state(State& state) const {
         auto node_data = data_ptr<BasicIndexingNodeData>(state);
         node_data->previous_size = size(state);
 
-        if (axis0_slice_.value().start < 0) {
+        if (caches_output()) {
             // Initialize the full output cache
             node_data->full_cache_.assign(begin(state), end(state));
         }
@@ -1218,6 +1218,11 @@ ssize_t BasicIndexingNode::dynamic_start(ssize_t slice_start) const {
     return slice_start * array_ptr_->strides()[0] / static_cast<ssize_t>(sizeof(double));
 }
 
+bool BasicIndexingNode::caches_output() const {
+    if (!dynamic()) return false;
+    return axis0_slice_->start < 0 || (!contiguous_ && axis0_slice_->stop < 0);
+}
+
 ssize_t get_smallest_size_during_diff(ssize_t initial_size, const std::span<const Update> diff) {
     ssize_t minimum_size = initial_size;
     ssize_t size = initial_size;
@@ -1239,15 +1244,11 @@ void BasicIndexingNode::propagate(State& state) const {
     auto& diff = node_data->diff;
     assert(diff.size() == 0 && "calling propagate on an node with pending updates");
 
-    if (contiguous_ && dynamic() && axis0_slice_.value().start < 0) {
-        assert(this->start_ == 0);
+    if (caches_output()) {
         // Do a full recompute of the output using the current data. This could be avoided
         // when the size of the parent array hasn't changed.
         auto& full_cache = node_data->full_cache_;
-        assert(full_cache.size() ==
-                       axis0_slice_.value()
-                               .fit(array_ptr_->size(state) - array_ptr_->size_diff(state))
-                               .size() &&
+        assert(static_cast<ssize_t>(full_cache.size()) == node_data->previous_size &&
                "cache is the wrong size");
 
         update_dynamic_shape(state);
@@ -1340,15 +1341,18 @@ void BasicIndexingNode::propagate(State& state) const {
 
         assert(this->start_ == 0);
 
+        // The slice is given in rows, but everything that follows is in terms of elements
+        const ssize_t row_size = array_ptr_->strides()[0] / array_ptr_->itemsize();
+        auto fit_elements = [&](const ssize_t array_size) -> Slice {
+            if (!row_size) return Slice(0, 0);
+            Slice rows = axis0_slice_.value().fit(array_size / row_size);
+            if (rows.size() == 0) rows = Slice(axis0_slice_.value().start, axis0_slice_.value().start);
+            return Slice(rows.start * row_size, rows.stop * row_size);
+        };
+
         ssize_t old_parent_size = array_ptr_->size(state) - array_ptr_->size_diff(state);
-        Slice previous_slice = axis0_slice_.value().fit(old_parent_size);
-        if (previous_slice.size() == 0) {
-            previous_slice = Slice(axis0_slice_.value().start, axis0_slice_.value().start);
-        }
-        Slice new_slice = axis0_slice_.value().fit(array_ptr_->size(state));
-        if (new_slice.size() == 0) {
-            new_slice = Slice(axis0_slice_.value().start, axis0_slice_.value().start);
-        }
+        Slice previous_slice = fit_elements(old_parent_size);
+        Slice new_slice = fit_elements(array_ptr_->size(state));
 
         ssize_t smallest_parent_size =
                 get_smallest_size_during_diff(old_parent_size, array_ptr_->diff(state));
@@ -1460,7 +1464,7 @@ void BasicIndexingNode::propagate(State& state) const {
             diff.emplace_back(index - start, old, value);
         }
 
-    } else if (!dynamic() || (axis0_slice_.value().start >= 0 && axis0_slice_.value().stop >= 0)) {
+    } else {
         // Handle all other cases of static sized arrays (contiguous and non-contiguous), and the
         // case of dynamic but with positive start and end
         assert(!this->contiguous());
@@ -1509,8 +1513,6 @@ void BasicIndexingNode::propagate(State& state) const {
 
             diff.emplace_back(view_index, old, value);
         }
-    } else {
-        assert(false && "not yet implemented");
     }
 
     // Only signal successors if we actually have something to propagate
@@ -1524,8 +1526,7 @@ void BasicIndexingNode::revert(State& state) const {
         // todo this is only safe if revert() has been called on the predecessor array
         // first, which isn't safe to assume
         update_dynamic_shape(state);
-        if (axis0_slice_.value().start < 0) {
-            assert(contiguous_ && "not yet implemented");
+        if (caches_output()) {
             node_data->full_cache_.resize(node_data->previous_size);
         }
     }
-- 
2.43.0


From ca721980967cc42202a60fc3b54d60b19153337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:00 +0000
Subject: [PATCH 28/30] fix: a slice with step zero raises instead of ending
 the interpreter

---
 dwave/optimization/libcpp/array.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/libcpp/array.pxd b/dwave/optimization/libcpp/array.pxd
index abea195..d9dd552 100644
--- a/dwave/optimization/libcpp/array.pxd
+++ b/dwave/optimization/libcpp/array.pxd
@@ -54,7 +54,7 @@ cdef extern from "dwave-optimization/array.hpp" namespace "dwave::optimization"
         Slice()
         Slice(optional[Py_ssize_t] stop)
         Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop)
-        Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step)
+        Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step) except+
 
         Py_ssize_t start
         Py_ssize_t stop
-- 
2.43.0


From ecb3c60f07cad19bf4023b899c78fb9b1d7811e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:15 +0000
Subject: [PATCH 29/30] fix: changes of an array behind a leading slice reach
 the right place of an advanced index

---
 dwave/optimization/src/nodes/indexing.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 051ab7e..d1577e5 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -678,11 +678,12 @@ std::pair<ssize_t, ssize_t> get_mapped_index(
         const std::vector<AdvancedIndexingNode::array_or_slice>& indices,
         const std::span<const ssize_t>& strides, const std::span<const ssize_t>& item_strides,
         const std::span<const ssize_t>& shape, const std::span<const ssize_t>& mapped_item_strides,
-        ssize_t itemsize, ssize_t index) {
+        ssize_t itemsize, ssize_t index, bool arrays_first, ssize_t indexing_arrays_ndim) {
     ssize_t offset = 0;
     ssize_t subspace_index = 0;
-    ssize_t mapped_axis = 0;
-    bool hit_first_array = false;
+    // When the axes of the indexing arrays come first, every slice is mapped past them
+    ssize_t mapped_axis = arrays_first ? indexing_arrays_ndim : 0;
+    bool hit_first_array = arrays_first;
     assert(indices.size() == strides.size());
     assert(indices.size() == item_strides.size());
     assert(indices.size() == shape.size());
@@ -831,7 +832,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
             // First part is the offset, second part is the subspace index
             std::pair<ssize_t, ssize_t> mapped_index =
                     get_mapped_index(indices_, array_strides, array_item_strides(),
-                                     array_ptr_->shape(state), strides(), itemsize(), update.index);
+                                     array_ptr_->shape(state), strides(), itemsize(), update.index,
+                                     bullet1mode_, indexing_arrays_ndim_);
             // This will return a nullptr if there currently are no mapped offsets
             const auto* idxs = node_data->get_offset_idxs(mapped_index.first);
             if (idxs != nullptr) {
@@ -897,7 +899,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
             // First part is the offset, second part is the subspace index
             std::pair<ssize_t, ssize_t> mapped_index =
                     get_mapped_index(indices_, array_strides, array_item_strides(),
-                                     array_ptr_->shape(state), strides(), itemsize(), update.index);
+                                     array_ptr_->shape(state), strides(), itemsize(), update.index,
+                                     bullet1mode_, indexing_arrays_ndim_);
             const auto* idxs = node_data->get_offset_idxs(mapped_index.first);
             if (idxs != nullptr) {
                 for (const auto& idx : *idxs) {
-- 
2.43.0


From 8c9ba3950370c6cdba8b0984f8a419371da60a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:24 +0000
Subject: [PATCH 30/30] fix: combining change records that cancel out does not
 read before the list

---
 dwave/optimization/src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/utils.cpp b/dwave/optimization/src/utils.cpp
index a3e80fb..a5e8eaf 100644
--- a/dwave/optimization/src/utils.cpp
+++ b/dwave/optimization/src/utils.cpp
@@ -63,7 +63,7 @@ void deduplicate_diff(std::vector<Update>& diff) {
         }
 
         // In case the very last value is a place and removal, discard it
-        if (diff[new_index].null()) {
+        if (new_index >= 0 && diff[new_index].null()) {
             new_index--;
         }
     }
-- 
2.43.0

