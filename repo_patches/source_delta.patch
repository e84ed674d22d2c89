From 484041317d34099ce7128c06ea59c00a1c5e49b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:13 +0000
Subject: [PATCH 01/30] fix: ConcatenateNode records the replaced value as the
 old value of an update

---
 dwave/optimization/src/nodes/manipulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index b6584dc..7c3413a 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -160,7 +160,7 @@ void ConcatenateNode::propagate(State& state) const {
             auto update_it = view_it + diff.index;
             ssize_t buffer_index = &*update_it - ptr->buffer.data();
             assert(*update_it == diff.old);
-            ptr->updates.emplace_back(buffer_index, *view_it, diff.value);
+            ptr->updates.emplace_back(buffer_index, *update_it, diff.value);
             *update_it = diff.value;
         }
     }
-- 
2.43.0


From 93bde476ddc58d82b8de4dd882f5ab36c0236b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:38 +0000
Subject: [PATCH 02/30] fix: a node constructor that throws no longer leaves
 dangling successors

---
 .../include/dwave-optimization/graph.hpp        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/include/dwave-optimization/graph.hpp b/dwave/optimization/include/dwave-optimization/graph.hpp
index 02b9b8b..6e7f7e7 100644
--- a/dwave/optimization/include/dwave-optimization/graph.hpp
+++ b/dwave/optimization/include/dwave-optimization/graph.hpp
@@ -23,6 +23,7 @@
 #include <random>
 #include <span>
 #include <utility>
+#include <unordered_set>
 #include <vector>
 
 #include "dwave-optimization/array.hpp"
@@ -320,7 +321,21 @@ NodeType* Graph::emplace_node(Args&&... args) {
     }
 
     // Construct via make_unique so we can allow the constructor to throw
-    auto uptr = std::make_unique<NodeType>(std::forward<Args&&>(args)...);
+    std::unique_ptr<NodeType> uptr;
+    try {
+        uptr = std::make_unique<NodeType>(std::forward<Args&&>(args)...);
+    } catch (...) {
+        // The node may have registered itself with some of its predecessors
+        // before its constructor threw, so remove any dangling successors.
+        std::unordered_set<const Node*> owned;
+        for (const auto& node_ptr : nodes_) owned.insert(node_ptr.get());
+        for (const auto& node_ptr : nodes_) {
+            std::erase_if(node_ptr->successors_, [&owned](const Node::SuccessorView& sv) {
+                return !owned.contains(sv.ptr);
+            });
+        }
+        throw;
+    }
     NodeType* ptr = uptr.get();
 
     // Pass ownership of the lifespan to nodes_
-- 
2.43.0


From 20403c5861db9eb1b294c693d6a189c012e95d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:38 +0000
Subject: [PATCH 03/30] fix: IntegerNode::default_move with a negative lower
 bound

---
 dwave/optimization/src/nodes/numbers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/numbers.cpp b/dwave/optimization/src/nodes/numbers.cpp
index 674dca8..9417c34 100644
--- a/dwave/optimization/src/nodes/numbers.cpp
+++ b/dwave/optimization/src/nodes/numbers.cpp
@@ -140,7 +140,7 @@ bool IntegerNode::set_value(State& state, ssize_t i, int value) const {
 
 void IntegerNode::default_move(State& state, RngAdaptor& rng) const {
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
-    std::uniform_int_distribution<std::size_t> value_dist(lower_bound_, upper_bound_);
+    std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);
     this->set_value(state, index_dist(rng), value_dist(rng));
 }
 
-- 
2.43.0


From 8ade64deca3fd9d643cbcbb9284644aa5c006322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:38 +0000
Subject: [PATCH 04/30] fix: default moves on empty decisions access out of
 bounds

---
 dwave/optimization/src/nodes/collections.cpp | 4 ++++
 dwave/optimization/src/nodes/numbers.cpp     | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 6dc0ce3..3b4ecff 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -341,6 +341,7 @@ void DisjointBitSetsNode::revert(State& state) const {
 }
 
 void DisjointBitSetsNode::default_move(State& state, RngAdaptor& rng) const {
+    if (primary_set_size_ == 0) return;  // nothing to move
     std::uniform_int_distribution<std::size_t> dist_sets(0, num_disjoint_sets_ - 1);
     std::uniform_int_distribution<std::size_t> dist_el(0, primary_set_size_ - 1);
 
@@ -665,6 +666,8 @@ void DisjointListsNode::pop_to_list(State& state, ssize_t from_list_index, ssize
 void DisjointListsNode::default_move(State& state, RngAdaptor& rng) const {
     auto data = data_ptr<DisjointListStateData>(state);
 
+    if (this->primary_set_size() == 0) return;  // nothing to move
+
     // choose a list to pop from (list_i) randomly weighted by how many items are in it,
     // and another list to pop to (list_j) uniformly randomly
     size_t list_i = 0;
@@ -746,6 +749,7 @@ ssize_t DisjointListNode::size_diff(const State& state) const {
 }
 
 void ListNode::default_move(State& state, RngAdaptor& rng) const {
+    if (this->size(state) == 0) return;  // nothing to exchange
     std::uniform_int_distribution<std::size_t> dist(0, this->size(state) - 1);
     // This might mean we're selecting the same variable twice.
     // But for large-ish lists that should be quite rare and anyway it's
diff --git a/dwave/optimization/src/nodes/numbers.cpp b/dwave/optimization/src/nodes/numbers.cpp
index 9417c34..723a2fa 100644
--- a/dwave/optimization/src/nodes/numbers.cpp
+++ b/dwave/optimization/src/nodes/numbers.cpp
@@ -139,6 +139,7 @@ bool IntegerNode::set_value(State& state, ssize_t i, int value) const {
 }
 
 void IntegerNode::default_move(State& state, RngAdaptor& rng) const {
+    if (this->size(state) == 0) return;  // nothing to change
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
     std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);
     this->set_value(state, index_dist(rng), value_dist(rng));
@@ -168,6 +169,7 @@ bool BinaryNode::unset(State& state, ssize_t i) const {
 }
 
 void BinaryNode::default_move(State& state, RngAdaptor& rng) const {
+    if (this->size(state) == 0) return;  // nothing to change
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
     this->flip(state, index_dist(rng));
 }
-- 
2.43.0


From 844969d06be9ad5cc529db98f1b1eec8b88bda72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:38 +0000
Subject: [PATCH 05/30] fix: ListNode default state holds the unused elements
 too

---
 dwave/optimization/src/nodes/collections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 3b4ecff..bd51a77 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -763,7 +763,7 @@ void ListNode::initialize_state(State& state) const {
     assert(static_cast<int>(state.size()) > index && "unexpected state length");
     assert(state[index] == nullptr && "already initialized state");
 
-    state[index] = std::make_unique<CollectionStateData>(max_size_);
+    state[index] = std::make_unique<CollectionStateData>(max_value_, max_size_);
 }
 
 void SetNode::default_move(State& state, RngAdaptor& rng) const {
-- 
2.43.0


From cb49cbbce0630877c51129fd974fca80b98b8779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:38 +0000
Subject: [PATCH 06/30] fix: DisjointBitSetsNode accepts states that are not a
 partition

---
 dwave/optimization/src/nodes/collections.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index bd51a77..a349b8a 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -13,6 +13,7 @@
 //    limitations under the License.
 #include "dwave-optimization/nodes/collections.hpp"
 
+#include <algorithm>
 #include <ranges>
 #include <unordered_set>
 #include <utility>
@@ -244,7 +245,7 @@ struct DisjointBitSetsNodeData : NodeStateData {
         data.resize(primary_set_size * num_disjoint_sets, 0);
         diffs.resize(num_disjoint_sets);
 
-        ssize_t num_elements = 0;
+        std::vector<ssize_t> counts(primary_set_size, 0);
 
         for (ssize_t set_index = 0; set_index < num_disjoint_sets; ++set_index) {
             if (static_cast<ssize_t>(contents[set_index].size()) != primary_set_size) {
@@ -256,11 +257,11 @@ struct DisjointBitSetsNodeData : NodeStateData {
                     throw std::invalid_argument("provided set must be binary valued");
                 }
                 data[set_index * primary_set_size + el_index] = contents[set_index][el_index];
-                num_elements += static_cast<ssize_t>(contents[set_index][el_index]);
+                counts[el_index] += static_cast<ssize_t>(contents[set_index][el_index]);
             }
         }
 
-        if (num_elements != primary_set_size) {
+        if (!std::ranges::all_of(counts, [](ssize_t count) { return count == 1; })) {
             throw std::invalid_argument(
                     "disjoint set elements must be in exactly one bit-set once");
         }
-- 
2.43.0


From 132f47ec1481939fbdafce930aa6dc28368ab60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:59 +0000
Subject: [PATCH 07/30] fix: PermutationNode::propagate for arrays that are not
 two-dimensional

---
 dwave/optimization/src/nodes/indexing.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 36f4615..c789066 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1715,14 +1715,17 @@ void PermutationNode::propagate(State& state) const {
         const std::span<const ssize_t> strides = array_ptr_->strides();
         const double* start = array_ptr_->buff(state);
 
-        ssize_t mul = std::pow(n, ndim - 1);
-        ssize_t step = 1;
+        // the number of elements for each index along the current dimension
+        ssize_t inner = std::pow(n, ndim - 1);
 
         for (ssize_t dim = 0; dim < ndim; ++dim) {
             for (auto& [index, old, neo] : order_diff) {
                 ssize_t stride = strides[dim] / array_ptr_->itemsize();
 
-                for (ssize_t i = index * mul, end = i + step * n; i < end; i += step) {
+                // visit every element whose index along the current dimension is index
+                for (ssize_t j = 0, end = this->size() / n; j < end; ++j) {
+                    const ssize_t i = ((j / inner) * n + index) * inner + j % inner;
+
                     old_offsets.emplace_back(offsets[i]);
 
                     offsets[i] += stride * (neo - old);
@@ -1738,8 +1741,7 @@ void PermutationNode::propagate(State& state) const {
                 }
             }
 
-            mul /= n;
-            step *= n;
+            inner /= n;
         }
     }
 
-- 
2.43.0


From 1153ae00aeec5f3997712bf2d7faece9de821561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:59 +0000
Subject: [PATCH 08/30] fix: PermutationNode with an order out of range or an
 empty array

---
 dwave/optimization/src/nodes/indexing.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index c789066..1106768 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1627,7 +1627,8 @@ PermutationNode::PermutationNode(ArrayNode* array_ptr, ArrayNode* order_ptr)
     if (array_shape[0] != order_ptr_->size()) {
         throw std::invalid_argument("array shape and order size mismatch");
     }
-    if (order_ptr_->max() > array_ptr_->size()) {
+    if (order_ptr_->size() > 0 &&
+        (order_ptr_->min() < 0 || order_ptr_->max() >= array_shape[0])) {
         throw std::invalid_argument("order may have values out of range");
     }
 
@@ -1666,8 +1667,8 @@ void PermutationNode::initialize_state(State& state) const {
         std::vector<ssize_t> order(order_ptr_->begin(state), order_ptr_->end(state));
 
         std::vector<ssize_t> i(ndim);
-        std::vector<ssize_t> o(ndim, order[0]);
-        do {
+        std::vector<ssize_t> o(ndim, n ? order[0] : 0);
+        if (n) do {
             offsets.emplace_back(std::inner_product(o.begin(), o.end(), strides.begin(), 0) /
                                  sizeof(double));
 
-- 
2.43.0


From d3414e7f2d53434b4d3e5b53b3e5a5075263798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:59 +0000
Subject: [PATCH 09/30] fix: start of a strided slice of a dynamic array

---
 dwave/optimization/src/nodes/indexing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 1106768..5c8d35e 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1193,7 +1193,8 @@ void BasicIndexingNode::initialize_state(State& state) const {
 }
 
 ssize_t BasicIndexingNode::dynamic_start(ssize_t slice_start) const {
-    return slice_start * strides_[0] / static_cast<ssize_t>(sizeof(double));
+    // The start is in terms of the array's rows, so it's independent of our step
+    return slice_start * array_ptr_->strides()[0] / static_cast<ssize_t>(sizeof(double));
 }
 
 ssize_t get_smallest_size_during_diff(ssize_t initial_size, const std::span<const Update> diff) {
-- 
2.43.0


From b0986871b15184c9f819baa47918112795d32ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 10/30] fix: BasicIndexingNode updates for strided and
 multi-dimensional views

---
 .../dwave-optimization/nodes/indexing.hpp     |   2 +
 dwave/optimization/src/nodes/indexing.cpp     | 102 +++++++++---------
 2 files changed, 53 insertions(+), 51 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 79ef55d..97e1879 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -231,6 +231,8 @@ class BasicIndexingNode : public ArrayNode {
 
     void update_dynamic_shape(State& state) const;
     ssize_t dynamic_start(ssize_t slice_start) const;
+    // Whether changes are found by comparing with a copy of the previous output
+    bool uses_full_cache() const;
 
     // We could do dynamic_cast<Array*>(predecessors[0]), but since there's
     // only one we just go ahead and hold a direct pointer
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 5c8d35e..3e123ae 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -15,6 +15,7 @@
 #include "dwave-optimization/nodes/indexing.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <ranges>
 #include <unordered_set>
 
@@ -1107,7 +1108,7 @@ void BasicIndexingNode::commit(State& state) const {
     node_data->diff.clear();
     node_data->previous_size = size(state);
     // reset the cache
-    node_data->full_cache_.assign(begin(state), end(state));
+    if (uses_full_cache()) node_data->full_cache_.assign(begin(state), end(state));
 }
 
 std::span<const Update> BasicIndexingNode::diff(const State& state) const {
@@ -1185,13 +1186,21 @@ void BasicIndexingNode::initialize_state(State& state) const {
         auto node_data = data_ptr<BasicIndexingNodeData>(state);
         node_data->previous_size = size(state);
 
-        if (axis0_slice_.value().start < 0) {
+        if (uses_full_cache()) {
             // Initialize the full output cache
             node_data->full_cache_.assign(begin(state), end(state));
         }
     }
 }
 
+bool BasicIndexingNode::uses_full_cache() const {
+    if (!dynamic()) return false;
+    // A negative start moves every element whenever the array changes size
+    if (axis0_slice_->start < 0) return true;
+    // We handle a negative stop incrementally only for 1d arrays
+    return axis0_slice_->stop < 0 && !(contiguous_ && array_ptr_->ndim() == 1);
+}
+
 ssize_t BasicIndexingNode::dynamic_start(ssize_t slice_start) const {
     // The start is in terms of the array's rows, so it's independent of our step
     return slice_start * array_ptr_->strides()[0] / static_cast<ssize_t>(sizeof(double));
@@ -1218,15 +1227,11 @@ void BasicIndexingNode::propagate(State& state) const {
     auto& diff = node_data->diff;
     assert(diff.size() == 0 && "calling propagate on an node with pending updates");
 
-    if (contiguous_ && dynamic() && axis0_slice_.value().start < 0) {
-        assert(this->start_ == 0);
+    if (uses_full_cache()) {
         // Do a full recompute of the output using the current data. This could be avoided
         // when the size of the parent array hasn't changed.
         auto& full_cache = node_data->full_cache_;
-        assert(full_cache.size() ==
-                       axis0_slice_.value()
-                               .fit(array_ptr_->size(state) - array_ptr_->size_diff(state))
-                               .size() &&
+        assert(static_cast<ssize_t>(full_cache.size()) == node_data->previous_size &&
                "cache is the wrong size");
 
         update_dynamic_shape(state);
@@ -1251,8 +1256,8 @@ void BasicIndexingNode::propagate(State& state) const {
 
         assert(size(state) == i);
 
-    } else if (contiguous_ && dynamic()) {
-        // Handle the case of dynamic array with non-negative start.
+    } else if (contiguous_ && dynamic() && array_ptr_->ndim() == 1) {
+        // Handle the case of a 1d dynamic array with non-negative start.
         //
         // The parent array's diff may contain a series of placements and removals
         // (interspersed with with mutations of the value at a given index) that make
@@ -1421,7 +1426,7 @@ void BasicIndexingNode::propagate(State& state) const {
         }
 
         update_dynamic_shape(state);
-    } else if (contiguous_) {
+    } else if (contiguous_ && !dynamic()) {
         // This is simple, it's just a numeric offset
 
         const ssize_t start = this->start_;
@@ -1439,56 +1444,55 @@ void BasicIndexingNode::propagate(State& state) const {
             diff.emplace_back(index - start, old, value);
         }
 
-    } else if (!dynamic() || (axis0_slice_.value().start >= 0 && axis0_slice_.value().stop >= 0)) {
-        // Handle all other cases of static sized arrays (contiguous and non-contiguous), and the
-        // case of dynamic but with positive start and end
-        assert(!this->contiguous());
+    } else {
+        // Handle all other cases of static sized arrays, and the case of dynamic arrays with
+        // non-negative start and stop. In both an element's position in the view depends only
+        // on its position in the parent array.
         assert(array_ptr_->contiguous() && "doesn't support non-contiguous arrays");
 
-        if (dynamic()) update_dynamic_shape(state);
-
-        const ssize_t start = this->start_;
-        // distance between pointers in the parent array. Relies on parent
-        // being contiguous
-        assert(array_ptr_->contiguous());
-        const ssize_t stop = &*this->end(state) - &*this->begin(state);
+        ssize_t start = this->start_;
+        ssize_t stop = std::numeric_limits<ssize_t>::max();
+        if (dynamic()) {
+            update_dynamic_shape(state);
+
+            start += dynamic_start(axis0_slice_->start);
+            if (axis0_slice_->start >= axis0_slice_->stop) {
+                stop = 0;  // always empty
+            } else if (const ssize_t row_size = dynamic_start(1);
+                       row_size && axis0_slice_->stop < stop / row_size) {
+                stop = axis0_slice_->stop * row_size;
+            }
+        }
 
-        // A few sanity checks...
-        assert(start >= 0);
-        assert(stop >= start);
-        assert(this->ndim() > 0);  // if we're not contiguous we cannot be a scalar
-        // some strided stop after the end to make the math work out.
-        assert(stop <= array_ptr_->size(state) + this->strides()[0] / this->itemsize());
+        const std::span<const ssize_t> shape = this->shape();
+        const std::span<const ssize_t> strides = this->strides();
 
-        for (auto [index, old, value] : array_ptr_->diff(state)) {
+        for (const auto& [index, old, value] : array_ptr_->diff(state)) {
             if (index < start) continue;  // before the range we care about
             if (index >= stop) continue;  // after the range we care about
 
-            index -= start;
-
+            // Work out our own multi-index and from that our own (flat) index.
+            // This relies on the parent being contiguous.
+            ssize_t remainder = index - start;
+            ssize_t view_index = 0;
             bool skip = false;
-            for (ssize_t stride : this->strides()) {
-                assert(stride % this->itemsize() == 0);
-                // again, we rely on the parent being contiguous!
-                assert(array_ptr_->contiguous());
-                const ssize_t div = stride / this->itemsize();
-
-                if (index % div) {
-                    // we are "between" steps
-                    skip = true;
+            for (ssize_t dim = 0; dim < ndim_; ++dim) {
+                assert(strides[dim] % this->itemsize() == 0);
+                const ssize_t stride = strides[dim] / this->itemsize();
+                const ssize_t i = remainder / stride;
+
+                if (shape[dim] >= 0 && i >= shape[dim]) {
+                    skip = true;  // outside of the range along this axis
                     break;
                 }
 
-                index /= div;
+                remainder -= i * stride;
+                view_index = (dim ? view_index * shape[dim] : 0) + i;
             }
-            if (skip) continue;
-
-            assert(index >= 0 && index < this->size(state));
+            if (skip || remainder) continue;
 
-            diff.emplace_back(index, old, value);
+            diff.emplace_back(view_index, old, value);
         }
-    } else {
-        assert(false && "not yet implemented");
     }
 
     // Only signal successors if we actually have something to propagate
@@ -1502,10 +1506,6 @@ void BasicIndexingNode::revert(State& state) const {
         // todo this is only safe if revert() has been called on the predecessor array
         // first, which isn't safe to assume
         update_dynamic_shape(state);
-        if (axis0_slice_.value().start < 0) {
-            assert(contiguous_ && "not yet implemented");
-            node_data->full_cache_.resize(node_data->previous_size);
-        }
     }
 }
 
-- 
2.43.0


From 9e6554675d7f9546d661631db81cc016f3568f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:47 +0000
Subject: [PATCH 11/30] fix: BinaryOpNode with a dynamic operand that currently
 holds a single element

---
 dwave/optimization/src/nodes/mathematical.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index de0a08d..ab1e333 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -81,7 +81,7 @@ void BinaryOpNode<BinaryOp>::initialize_state(State& state) const {
     auto func = op();
     std::vector<double> values;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // This is the easy case - all we need to do is iterate over both as flat arrays
         values.reserve(lhs_ptr->size(state));
 
@@ -267,7 +267,7 @@ void BinaryOpNode<BinaryOp>::propagate(State& state) const {
     auto& values = ptr->buffer;
     auto& changes = ptr->updates;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // The easy case, just go through both predecessors making updates.
         if (lhs_ptr->diff(state).size() && rhs_ptr->diff(state).size()) {
             // Both modified
@@ -366,12 +366,10 @@ template <class BinaryOp>
 std::span<const ssize_t> BinaryOpNode<BinaryOp>::shape(const State& state) const {
     if (!this->dynamic()) return this->shape();
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-
     // we don't (yet) support other cases
-    assert(lhs_size == 1 || operands_[1]->size(state) == 1);
+    assert(operands_[0]->size() == 1 || operands_[1]->size() == 1);
 
-    return (lhs_size == 1) ? operands_[1]->shape(state) : operands_[0]->shape(state);
+    return operands_[0]->dynamic() ? operands_[0]->shape(state) : operands_[1]->shape(state);
 }
 
 template <class BinaryOp>
@@ -380,13 +378,10 @@ ssize_t BinaryOpNode<BinaryOp>::size(const State& state) const {
         return size;
     }
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-    const ssize_t rhs_size = operands_[1]->size(state);
-
     // we don't (yet) support other cases
-    assert(lhs_size == 1 || rhs_size == 1);
+    assert(operands_[0]->size() == 1 || operands_[1]->size() == 1);
 
-    return (lhs_size == 1) ? rhs_size : lhs_size;
+    return operands_[0]->dynamic() ? operands_[0]->size(state) : operands_[1]->size(state);
 }
 
 template <class BinaryOp>
-- 
2.43.0


From d2f9db760d902a8259fcbd941a2b493a81f15661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:39 +0000
Subject: [PATCH 12/30] fix: size bounds of dynamic arrays and
 AdvancedIndexingNode over dynamic, empty and interleaved axes

SizeInfo::substitute() mixed the units of its bounds, dereferenced a null array
for fixed sizes and rounded strided sizes down, and array_shape_equal() accepted
slices of different lengths.
AdvancedIndexingNode ignored the size of the subspace, divided by zero for empty
axes, kept the dynamic shape of one state on the node, and mapped the updates of
the indexed array wrongly when a slice precedes the first of several indexers.
---
 .../include/dwave-optimization/array.hpp      |  17 +-
 .../dwave-optimization/nodes/indexing.hpp     |   4 +-
 .../include/dwave-optimization/utils.hpp      |  15 ++
 dwave/optimization/src/array.cpp              |  96 ++++----
 dwave/optimization/src/nodes/indexing.cpp     | 214 ++++++++++--------
 dwave/optimization/src/nodes/mathematical.cpp |  12 +-
 6 files changed, 217 insertions(+), 141 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index 73d3462..618bbea 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -58,13 +58,28 @@ struct SizeInfo {
 
     SizeInfo substitute(ssize_t max_depth = 1) const;
 
+    // The size is multiplier * array_ptr->size() + offset, rounded up to the next
+    // multiple of granularity and at least 0.
     const Array* array_ptr;
 
     fraction multiplier;
-    ssize_t offset;
+    fraction offset;
+    ssize_t granularity = 1;
 
+    // Before any substitution the bounds limit the size of the array pointed to by
+    // array_ptr. After a substitution they limit the size described by this object.
     std::optional<ssize_t> min;
     std::optional<ssize_t> max;
+
+ private:
+    // The size that results from an array_ptr of the given size
+    ssize_t scaled_(ssize_t size) const;
+
+    // The bounds on the size described by this object
+    std::optional<ssize_t> lower_() const;
+    std::optional<ssize_t> upper_() const;
+
+    bool substituted_ = false;
 };
 
 // A slice represents a set of indices specified by range(start, stop, step).
diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 97e1879..0a17f92 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -108,6 +108,9 @@ class AdvancedIndexingNode : public ArrayNode {
                              std::vector<double>& data, ssize_t index_in_arrays,
                              std::vector<Update>& diff) const;
 
+    // Rewrite the size of the first axis kept in the state, if it is dynamic
+    void update_shape(State& state) const;
+
     template <bool fill_diff, bool placement, bool removal>
     void fill_subspace_recurse(const std::span<const ssize_t>& shape, const double* array_buffer,
                                ssize_t array_offset, ssize_t array_dim, std::vector<double>& data,
@@ -124,7 +127,6 @@ class AdvancedIndexingNode : public ArrayNode {
     const ssize_t ndim_;
     std::unique_ptr<ssize_t[]> strides_;
     std::unique_ptr<ssize_t[]> shape_;
-    std::unique_ptr<ssize_t[]> dynamic_shape_;
 
     std::unique_ptr<ssize_t[]> array_item_strides_;
 
diff --git a/dwave/optimization/include/dwave-optimization/utils.hpp b/dwave/optimization/include/dwave-optimization/utils.hpp
index c0caa4a..7bd155b 100644
--- a/dwave/optimization/include/dwave-optimization/utils.hpp
+++ b/dwave/optimization/include/dwave-optimization/utils.hpp
@@ -116,6 +116,21 @@ class fraction {
         lhs *= rhs;
         return lhs;
     }
+    constexpr friend fraction operator*(fraction lhs, const fraction& rhs) noexcept {
+        lhs *= rhs;
+        return lhs;
+    }
+    // fractions can be added in place
+    constexpr fraction& operator+=(const fraction& other) noexcept {
+        numerator_ = numerator_ * other.denominator_ + other.numerator_ * denominator_;
+        denominator_ *= other.denominator_;
+        reduce();
+        return *this;
+    }
+    constexpr friend fraction operator+(fraction lhs, const fraction& rhs) noexcept {
+        lhs += rhs;
+        return lhs;
+    }
     constexpr fraction& operator/=(const std::integral auto n) {
         if (!n) throw std::invalid_argument("cannot divide by 0");
         denominator_ *= n;
diff --git a/dwave/optimization/src/array.cpp b/dwave/optimization/src/array.cpp
index d4fb85a..668b9b4 100644
--- a/dwave/optimization/src/array.cpp
+++ b/dwave/optimization/src/array.cpp
@@ -24,8 +24,9 @@ SizeInfo::SizeInfo(const Array* array_ptr, std::optional<ssize_t> min, std::opti
 
 bool SizeInfo::operator==(const SizeInfo& other) const {
     // if one or the other is a fixed number, then this is straightforward
-    if (other.multiplier == 0) return *this == other.offset;
-    if (this->multiplier == 0) return this->offset == other;
+    if (this->multiplier == 0 || other.multiplier == 0) {
+        return this->multiplier == other.multiplier && this->offset == other.offset;
+    }
 
     // if neither is a fixed size, then they should both be pointing to arrays
     // and those arrays should be dynamic
@@ -38,63 +39,63 @@ bool SizeInfo::operator==(const SizeInfo& other) const {
     if (this->array_ptr != other.array_ptr) return false;
 
     return (this->multiplier == other.multiplier && this->offset == other.offset &&
-            this->min.value_or(0) == other.min.value_or(0) &&
-            this->max == other.max);
+            this->granularity == other.granularity &&
+            this->lower_().value_or(0) == other.lower_().value_or(0) &&
+            this->upper_() == other.upper_());
 }
 
-SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
-    if (max_depth <= 0) return *this;
+ssize_t SizeInfo::scaled_(ssize_t size) const {
+    const fraction scaled = this->multiplier * size + this->offset;
+    if (scaled.numerator() <= 0) return 0;
+    const ssize_t denominator = scaled.denominator() * this->granularity;
+    return (scaled.numerator() + denominator - 1) / denominator * this->granularity;
+}
 
-    SizeInfo sizeinfo = this->array_ptr->sizeinfo();
+std::optional<ssize_t> SizeInfo::lower_() const {
+    if (substituted_ || !min) return min;
+    return scaled_(*min);
+}
 
-    // Check if substitution will do nothing, and return if so
-    constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
-    if (this->array_ptr == sizeinfo.array_ptr && sizeinfo.multiplier == 1 && sizeinfo.offset == 0 &&
-        this->min.value_or(-MAX) >= sizeinfo.min.value_or(MAX) &&
-        this->max.value_or(MAX) <= sizeinfo.max.value_or(-MAX)) {
-        return *this;
-    }
+std::optional<ssize_t> SizeInfo::upper_() const {
+    if (substituted_ || !max) return max;
+    return scaled_(*max);
+}
 
-    sizeinfo.multiplier *= this->multiplier;
-    assert((this->multiplier * sizeinfo.offset).denominator() == 1);
-    sizeinfo.offset = static_cast<ssize_t>(this->multiplier * sizeinfo.offset);
-    sizeinfo.offset += this->offset;
+SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
+    if (max_depth <= 0) return *this;
 
-    if (this->max) {
-        if (sizeinfo.max) {
-            sizeinfo.max = std::min<ssize_t>(*max, *sizeinfo.max);
-        } else {
-            sizeinfo.max = this->max;
-        }
-    }
+    // A fixed size cannot be improved
+    if (!this->array_ptr || this->multiplier == 0) return *this;
 
-    if (this->min) {
-        if (sizeinfo.min) {
-            sizeinfo.min = std::max<ssize_t>(*(this->min), *sizeinfo.min);
-        } else {
-            sizeinfo.min = this->min;
-        }
-    }
+    const SizeInfo source = this->array_ptr->sizeinfo();
 
-    if (sizeinfo.min) {
-        if (this->multiplier != 1) {
-            sizeinfo.min = static_cast<ssize_t>(this->multiplier * *sizeinfo.min);
-        }
-        sizeinfo.min = std::max<ssize_t>(0, *sizeinfo.min + this->offset);
+    SizeInfo sizeinfo = *this;
+    sizeinfo.substituted_ = true;
+    sizeinfo.array_ptr = source.array_ptr;
+    sizeinfo.multiplier = this->multiplier * source.multiplier;
+    sizeinfo.offset = this->multiplier * source.offset + this->offset;
+    sizeinfo.min = this->lower_();
+    sizeinfo.max = this->upper_();
+
+    // The bounds on the size of the array also bound us
+    if (const auto lower = source.lower_()) {
+        sizeinfo.min = std::max<ssize_t>(sizeinfo.min.value_or(0), scaled_(*lower));
+        // that might be more than the array's size can get to
+        if (sizeinfo.max) sizeinfo.min = std::min<ssize_t>(*sizeinfo.min, *sizeinfo.max);
     }
-    if (sizeinfo.max) {
-        if (this->multiplier != 1) {
-            sizeinfo.max = static_cast<ssize_t>(this->multiplier * *sizeinfo.max);
-        }
-        sizeinfo.max = std::max<ssize_t>(0, *sizeinfo.max + this->offset);
+    if (const auto upper = source.upper_()) {
+        const ssize_t scaled = scaled_(*upper);
+        sizeinfo.max = sizeinfo.max ? std::min<ssize_t>(*sizeinfo.max, scaled) : scaled;
     }
 
-    // Adjust the minimum based on the offset
     if (sizeinfo.min && sizeinfo.max && sizeinfo.min == sizeinfo.max) {
         sizeinfo.offset = *sizeinfo.min;
         sizeinfo.multiplier = 0;
     }
 
+    // Check if more substitutions will do nothing, and return if so
+    if (this->array_ptr == source.array_ptr) return sizeinfo;
+
     // in the future we can/should do an iterative rather than recurisive
     // version
     if (max_depth > 1) return sizeinfo.substitute(max_depth - 1);
@@ -102,7 +103,7 @@ SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
 }
 
 std::ostream& operator<<(std::ostream& os, const SizeInfo& sizeinfo) {
-    if (sizeinfo.multiplier == 0) return os << sizeinfo.offset;
+    if (sizeinfo.multiplier == 0) return os << sizeinfo.offset.numerator();
 
     if (sizeinfo.multiplier != 1) {
         os << sizeinfo.multiplier << " * ";
@@ -110,8 +111,10 @@ std::ostream& operator<<(std::ostream& os, const SizeInfo& sizeinfo) {
 
     os << "<Array at " << sizeinfo.array_ptr << ">.size()";
 
-    if (sizeinfo.offset) {
+    if (sizeinfo.offset.denominator() != 1) {
         os << " + " << sizeinfo.offset;
+    } else if (sizeinfo.offset.numerator()) {
+        os << " + " << sizeinfo.offset.numerator();
     }
 
     return os;
@@ -163,6 +166,9 @@ std::string shape_to_string(const std::span<const ssize_t> shape) {
 }
 
 bool array_shape_equal(const Array* lhs_ptr, const Array* rhs_ptr) {
+    // All but the first axis have a fixed size, so we can compare those directly
+    if (!std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) return false;
+
     auto lhs_size = lhs_ptr->sizeinfo();
     auto rhs_size = rhs_ptr->sizeinfo();
 
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 3e123ae..5f2c665 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -16,6 +16,8 @@
 
 #include <algorithm>
 #include <limits>
+#include <numeric>
+#include <optional>
 #include <ranges>
 #include <unordered_set>
 
@@ -29,7 +31,9 @@ namespace dwave::optimization {
 // Generic data storage for nodes that index other nodes.
 struct IndexingNodeData : NodeStateData {
     IndexingNodeData(std::vector<ssize_t>&& offsets, std::vector<double>&& values) noexcept
-            : offsets(offsets), data(values), old_size(offsets.size()) {}
+            : offsets(std::move(offsets)),
+              data(std::move(values)),
+              old_size(this->offsets.size()) {}
 
     void commit() {
         diff.clear();
@@ -81,11 +85,12 @@ struct IndexingNodeData : NodeStateData {
 struct AdvancedIndexingNodeData : NodeStateData {
  public:
     AdvancedIndexingNodeData(std::vector<ssize_t>&& offsets, std::vector<double>&& values,
-                             bool maintain_reverse_offset_map) noexcept
-            : data(values),
+                             std::span<const ssize_t> shape, bool maintain_reverse_offset_map)
+            : data(std::move(values)),
+              shape(shape.begin(), shape.end()),
               old_offsets_size(offsets.size()),
               old_data_size(data.size()),
-              offsets_(offsets),
+              offsets_(std::move(offsets)),
               maintain_reverse_offset_map(maintain_reverse_offset_map) {
         for (ssize_t idx = 0; idx < static_cast<ssize_t>(offsets_.size()); ++idx) {
             add_to_reverse(idx, offsets_[idx]);
@@ -175,6 +180,10 @@ struct AdvancedIndexingNodeData : NodeStateData {
     // The array values as a contiguous dataset
     std::vector<double> data;
 
+    // The shape of the array. If the array is dynamic the first axis is rewritten as
+    // the output changes size.
+    std::vector<ssize_t> shape;
+
     // Updates to the values, as well as the old indices so we can revert
     std::vector<Update> diff;
     std::vector<Update> offsets_diff;
@@ -284,8 +293,11 @@ struct AdvancedIndexingNode::IndexParser_ {
                     }
 
                     // from the min size of the dynamic array, get the min size of the first axis
-                    ssize_t min_axis_size = (sizeinfo.min.value() * array_ptr->itemsize()) /
-                                            array_ptr->strides()[0];
+                    const ssize_t num_per_row =
+                            std::reduce(array_ptr->shape().begin() + 1, array_ptr->shape().end(),
+                                        static_cast<ssize_t>(1), std::multiplies<ssize_t>());
+                    const ssize_t min_axis_size =
+                            num_per_row ? sizeinfo.min.value() / num_per_row : 0;
 
                     if (indexing_array_ptr->max() >= min_axis_size) {
                         throw std::out_of_range(
@@ -332,11 +344,6 @@ struct AdvancedIndexingNode::IndexParser_ {
                     "there must be at least one array-type index to use AdvancedIndexingNode");
         }
 
-        if (bullet1mode && array_ptr->dynamic() && std::holds_alternative<Slice>(indices_[0])) {
-            throw std::invalid_argument(
-                    "Indexed Array cannot be dynamic with an empty slice in the first dimension");
-        }
-
         assert(first_array != nullptr);
 
         if (!bullet1mode && std::holds_alternative<ArrayNode*>(indices_[0])) {
@@ -351,6 +358,11 @@ struct AdvancedIndexingNode::IndexParser_ {
             bullet1mode = true;
         }
 
+        if (bullet1mode && array_ptr->dynamic() && std::holds_alternative<Slice>(indices_[0])) {
+            throw std::invalid_argument(
+                    "Indexed Array cannot be dynamic with an empty slice in the first dimension");
+        }
+
         if (indexing_arrays_ndim > 1) {
             throw std::invalid_argument(
                     "Advanced indexing currently only supports 0- and 1-dimensional indexing "
@@ -472,13 +484,6 @@ AdvancedIndexingNode::AdvancedIndexingNode(ArrayNode* array_ptr, IndexParser_&&
             add_predecessor(std::get<ArrayNode*>(index));
         }
     }
-
-    if (dynamic()) {
-        // Copy over the shape to dynamic_shape_. Then the first index of dynamic_shape_
-        // will be rewritten as the output changes size.
-        dynamic_shape_ = std::make_unique<ssize_t[]>(ndim());
-        std::copy(shape_.get(), shape_.get() + ndim(), dynamic_shape_.get());
-    }
 }
 
 double const* AdvancedIndexingNode::buff(const State& state) const {
@@ -534,8 +539,8 @@ void AdvancedIndexingNode::fill_subspace_recurse(const std::span<const ssize_t>&
         // Base case. Copy the value from `array_buffer` to `data`, updating the diff
         // as necessary. Or pop/push to the data array if placing/removing.
         ssize_t data_index = data_offset / static_cast<ssize_t>(itemsize());
-        double new_val = array_buffer[array_offset / static_cast<ssize_t>(itemsize())];
         if constexpr (placement) {
+            double new_val = array_buffer[array_offset / static_cast<ssize_t>(itemsize())];
             if constexpr (fill_diff) diff->emplace_back(Update::placement(data_index, new_val));
             assert(data_index == static_cast<ssize_t>(data.size()));
             data.push_back(new_val);
@@ -546,6 +551,7 @@ void AdvancedIndexingNode::fill_subspace_recurse(const std::span<const ssize_t>&
             data.pop_back();
         } else {
             assert(data_index < static_cast<ssize_t>(data.size()));
+            double new_val = array_buffer[array_offset / static_cast<ssize_t>(itemsize())];
             if constexpr (fill_diff) diff->emplace_back(data_index, data[data_index], new_val);
             data[data_index] = new_val;
         }
@@ -612,7 +618,7 @@ void AdvancedIndexingNode::initialize_state(State& state) const {
         }
     }
 
-    ssize_t array_axis0_size = array_ptr_->size(state) / array_item_strides()[0];
+    ssize_t array_axis0_size = array_ptr_->shape(state)[0];
 
     // Now get the values
     ssize_t data_size = bullet1mode_ ? size * (subspace_stride_ / itemsize())
@@ -626,7 +632,8 @@ void AdvancedIndexingNode::initialize_state(State& state) const {
     bool main_array_is_constant_node = dynamic_cast<const ConstantNode*>(array_ptr_) != nullptr;
 
     state[index] = std::make_unique<AdvancedIndexingNodeData>(std::move(offsets), std::move(data),
-                                                              !main_array_is_constant_node);
+                                                              shape(), !main_array_is_constant_node);
+    update_shape(state);
 }
 
 void AdvancedIndexingNode::commit(State& state) const {
@@ -635,6 +642,7 @@ void AdvancedIndexingNode::commit(State& state) const {
 
 void AdvancedIndexingNode::revert(State& state) const {
     data_ptr<AdvancedIndexingNodeData>(state)->revert();
+    update_shape(state);
 }
 
 ssize_t AdvancedIndexingNode::size(const State& state) const {
@@ -643,29 +651,42 @@ ssize_t AdvancedIndexingNode::size(const State& state) const {
 
 SizeInfo AdvancedIndexingNode::sizeinfo() const {
     if (!dynamic()) return SizeInfo(size());
+    // there are no elements in any row
+    const ssize_t num_per_row = strides()[0] / itemsize();
+    if (!num_per_row) return SizeInfo(0);
+
     // when we get around to supporting broadcasting this will need to change
-    assert(predecessors().size() >= 2);
-    assert(!dynamic_cast<ArrayNode*>(predecessors()[0])->dynamic() &&
-           "sizeinfo for dynamic base arrays not supported");
-    return SizeInfo(dynamic_cast<ArrayNode*>(predecessors()[1]));
+    if (bullet1mode_) {
+        // our first axis is that of the indexing arrays
+        auto sizeinfo = SizeInfo(std::get<ArrayNode*>(indices_[first_array_index_]));
+        sizeinfo.multiplier = num_per_row;
+        sizeinfo.granularity = num_per_row;
+        return sizeinfo;
+    }
+
+    // our first axis is that of the indexed array
+    auto sizeinfo = SizeInfo(array_ptr_);
+    sizeinfo.multiplier = fraction(num_per_row, array_item_strides()[0]);
+    sizeinfo.granularity = num_per_row;
+    return sizeinfo;
 }
 
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
     if (!dynamic()) return shape();
     assert(this->ndim() >= 1);
-    dynamic_shape_[0] = this->size(state) / (strides()[0] / itemsize());
-    return std::span<const ssize_t>(dynamic_shape_.get(), this->ndim());
+    return data_ptr<AdvancedIndexingNodeData>(state)->shape;
 }
 
 std::pair<ssize_t, ssize_t> get_mapped_index(
         const std::vector<AdvancedIndexingNode::array_or_slice>& indices,
         const std::span<const ssize_t>& strides, const std::span<const ssize_t>& item_strides,
         const std::span<const ssize_t>& shape, const std::span<const ssize_t>& mapped_item_strides,
-        ssize_t itemsize, ssize_t index) {
+        ssize_t itemsize, ssize_t index, std::optional<ssize_t> leading_ndim = std::nullopt) {
     ssize_t offset = 0;
     ssize_t subspace_index = 0;
-    ssize_t mapped_axis = 0;
-    bool hit_first_array = false;
+    // If the axes due to the indexer arrays come first, there are leading_ndim of them
+    ssize_t mapped_axis = leading_ndim.value_or(0);
+    bool hit_first_array = leading_ndim.has_value();
     assert(indices.size() == strides.size());
     assert(indices.size() == item_strides.size());
     assert(indices.size() == shape.size());
@@ -811,10 +832,13 @@ void AdvancedIndexingNode::propagate(State& state) const {
             // Skip any update larger than the current size as it should have been
             // handled by the removals above
             if (update.index >= parent_size) continue;
+            // If an index within the current size was removed then it was also placed again
+            if (update.removed()) continue;
             // First part is the offset, second part is the subspace index
             std::pair<ssize_t, ssize_t> mapped_index =
                     get_mapped_index(indices_, array_strides, array_item_strides(),
-                                     array_ptr_->shape(state), strides(), itemsize(), update.index);
+                                     array_ptr_->shape(state), strides(), itemsize(), update.index,
+                                     indexing_arrays_ndim_);
             // This will return a nullptr if there currently are no mapped offsets
             const auto* idxs = node_data->get_offset_idxs(mapped_index.first);
             if (idxs != nullptr) {
@@ -822,8 +846,7 @@ void AdvancedIndexingNode::propagate(State& state) const {
                     if (offset_idxs_updated.contains(idx)) continue;
                     const ssize_t item_stride = subspace_stride_ / itemsize();
                     const ssize_t new_index = idx * item_stride + mapped_index.second;
-                    assert(data[new_index] == update.old);
-                    diff.emplace_back(new_index, update.old, update.value);
+                    diff.emplace_back(new_index, data[new_index], update.value);
                     data[new_index] = update.value;
                 }
             }
@@ -833,8 +856,10 @@ void AdvancedIndexingNode::propagate(State& state) const {
         ssize_t old_parent_size = new_parent_size - array_ptr_->size_diff(state);
         ssize_t unchanged_parent_size = std::min(new_parent_size, old_parent_size);
 
-        ssize_t old_axis0_size = old_parent_size / array_item_strides()[0];
-        ssize_t new_axis0_size = new_parent_size / array_item_strides()[0];
+        // If there are no elements in the rows then we have no elements either
+        const ssize_t array_num_per_row = std::max<ssize_t>(array_item_strides()[0], 1);
+        ssize_t old_axis0_size = old_parent_size / array_num_per_row;
+        ssize_t new_axis0_size = new_parent_size / array_num_per_row;
         ssize_t unchanged_axis0_size = std::min(new_axis0_size, old_axis0_size);
         // First handle any changes to the size of the parent array
         if (new_axis0_size > old_axis0_size) {
@@ -876,6 +901,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
         for (const auto& update : array_ptr_->diff(state)) {
             // Skip any update larger than the unchanged size
             if (update.index >= unchanged_parent_size) continue;
+            // If an index within the current size was removed then it was also placed again
+            if (update.removed()) continue;
 
             // First part is the offset, second part is the subspace index
             std::pair<ssize_t, ssize_t> mapped_index =
@@ -887,19 +914,32 @@ void AdvancedIndexingNode::propagate(State& state) const {
                     if (offset_idxs_updated.contains(idx)) continue;
                     ssize_t item_stride = subspace_stride_ / itemsize();
                     ssize_t new_index = idx * item_stride + mapped_index.second;
-                    assert(data[new_index] == update.old ||
-                           (std::isnan(data[new_index]) && update.placed()));
-                    diff.emplace_back(new_index, update.old_or(0), update.value_or(0));
+                    diff.emplace_back(new_index, data[new_index], update.value);
                     data[new_index] = update.value;
                 }
             }
         }
     }
 
+    update_shape(state);
+
     // Only signal successors if we actually have something to propagate
     if (diff.size()) Node::propagate(state);
 }
 
+void AdvancedIndexingNode::update_shape(State& state) const {
+    if (!dynamic()) return;
+    assert(this->ndim() >= 1);
+    auto node_data = data_ptr<AdvancedIndexingNodeData>(state);
+    if (bullet1mode_) {
+        node_data->shape[0] = node_data->offsets_size();
+    } else if (const ssize_t num_per_row = strides()[0] / itemsize(); num_per_row) {
+        node_data->shape[0] = node_data->data.size() / num_per_row;
+    } else {
+        node_data->shape[0] = array_ptr_->shape(state)[0];
+    }
+}
+
 ssize_t AdvancedIndexingNode::size_diff(const State& state) const {
     if (this->dynamic()) {
         auto ptr = data_ptr<AdvancedIndexingNodeData>(state);
@@ -1518,66 +1558,56 @@ ssize_t BasicIndexingNode::size(const State& state) const {
 SizeInfo BasicIndexingNode::sizeinfo() const {
     if (size_ >= 0) return SizeInfo(size_);
 
-    auto sizeinfo = SizeInfo(array_ptr_);
-
-    // Get the multiplier on the size of the array
-    {
-        // Determine how many elements are in each row of the array. Where "row" here means the
-        // first axis.
-        // We use the fact that the parent is contiguous to simplify this calculation.
-        assert(array_ptr_->contiguous());
-        assert(this->ndim() > 0);
-        ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
-
-        sizeinfo.multiplier /= array_num_per_row;
-
-        // Determine how many elements are in each row of the resulting array.
-        // Here we may be strided, so we use the shape to figure it out.
-        auto shape = this->shape();
-        ssize_t num_per_row =
-                std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
-
-        sizeinfo.multiplier *= num_per_row;
-
-        // handle the step
-        assert(axis0_slice_);            // dynamic so this should be present
-        assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
-
-        sizeinfo.multiplier /= axis0_slice_->step;
+    assert(axis0_slice_);            // dynamic so this should be present
+    assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
+    const auto& [start, stop, step] = *axis0_slice_;
+
+    // Determine how many elements are in each row of the array. Where "row" here means the
+    // first axis.
+    // We use the fact that the parent is contiguous to simplify this calculation.
+    assert(array_ptr_->contiguous());
+    assert(this->ndim() > 0);
+    const ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
+
+    // Determine how many elements are in each row of the resulting array.
+    // Here we may be strided, so we use the shape to figure it out.
+    auto shape = this->shape();
+    const ssize_t num_per_row = std::reduce(shape.begin() + 1, shape.end(), static_cast<ssize_t>(1),
+                                            std::multiplies<ssize_t>());
+
+    // There are no elements in any row
+    if (!num_per_row) return SizeInfo(0);
+
+    if (start < 0 && stop >= 0 && stop != std::numeric_limits<ssize_t>::max()) {
+        // In this case our size first grows and then shrinks as the array grows, which we
+        // cannot express in terms of the size of the array.
+        const ssize_t max_num_rows = (std::min<ssize_t>(-start, stop) + step - 1) / step;
+        return SizeInfo(this, 0, max_num_rows * num_per_row);
     }
 
-    // Get the offset and bounds
-    {
-        assert(axis0_slice_);  // dynamic so this should be present
+    auto sizeinfo = SizeInfo(array_ptr_);
 
-        if (axis0_slice_->step > 0) {
-            if (axis0_slice_->start > 0) {
-                // having a positive start imposes a size offset
-                assert((sizeinfo.multiplier * axis0_slice_->start).denominator() == 1);
-                sizeinfo.offset -= static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->start);
+    sizeinfo.granularity = num_per_row;
+    sizeinfo.multiplier = fraction(num_per_row, array_num_per_row * step);
 
-            } else if (axis0_slice_->start < 0) {
-                // a negative start imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * -1 * axis0_slice_->start);
-            }
-
-            // This is where having Slice's values be optional<ssize_t> would be useful.
-            // For now let's just hard code it.
-            constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
+    if (start > 0) {
+        // having a positive start imposes a size offset
+        sizeinfo.offset += fraction(-start * num_per_row, step);
+    } else if (start < 0) {
+        // a negative start means that we only use the end of a large enough array
+        sizeinfo.max = -start * array_num_per_row;
+    }
 
-            if (axis0_slice_->stop > 0 && axis0_slice_->stop != MAX) {
-                // having a positive stop imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
-            } else if (axis0_slice_->stop < 0) {
-                // having a negative stop imposes a size offset
-                sizeinfo.offset += static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
-            }
+    // This is where having Slice's values be optional<ssize_t> would be useful.
+    // For now let's just hard code it.
+    constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
 
-        } else {
-            // this is currently disallowed by the constructor
-            assert(false && "not implemented yet");
-            unreachable();
-        }
+    if (stop < 0) {
+        // having a negative stop imposes a size offset
+        sizeinfo.offset += fraction(stop * num_per_row, step);
+    } else if (stop != MAX) {
+        // having a positive stop means that we only use the start of a large enough array
+        sizeinfo.max = stop * array_num_per_row;
     }
 
     return sizeinfo;
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index ab1e333..879009c 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -396,16 +396,24 @@ SizeInfo BinaryOpNode<BinaryOp>::sizeinfo() const {
     const Array* lhs_ptr = operands_[0];
     const Array* rhs_ptr = operands_[1];
 
+    // there are no elements in any row
+    const ssize_t num_per_row = strides()[0] / itemsize();
+    if (!num_per_row) return SizeInfo(0);
+
     if (lhs_ptr->dynamic() && rhs_ptr->dynamic()) {
         // not (yet) possible for both predecessors to be dynamic
         assert(false && "not implemeted");
         unreachable();
     } else if (lhs_ptr->dynamic()) {
         assert(rhs_ptr->size() == 1);
-        return SizeInfo(lhs_ptr);
+        auto sizeinfo = SizeInfo(lhs_ptr);
+        sizeinfo.granularity = num_per_row;
+        return sizeinfo;
     } else if (rhs_ptr->dynamic()) {
         assert(lhs_ptr->size() == 1);
-        return SizeInfo(rhs_ptr);
+        auto sizeinfo = SizeInfo(rhs_ptr);
+        sizeinfo.granularity = num_per_row;
+        return sizeinfo;
     }
 
     // not possible for us to be dynamic and none of our predecessors to be
-- 
2.43.0


From acd8422b722f786f7866bda48e1529ca4c2bd6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 13/30] fix: running out of memory while creating an array
 iterator terminates the process

The constructors allocate, so they cannot be noexcept.
---
 .../include/dwave-optimization/array.hpp           | 14 +++++++-------
 dwave/optimization/src/nodes/flow.cpp              |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index 618bbea..e58140a 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -296,7 +296,7 @@ class Array {
         ArrayIteratorImpl_() = default;
 
         // Copy constructor.
-        ArrayIteratorImpl_(const ArrayIteratorImpl_& other) noexcept
+        ArrayIteratorImpl_(const ArrayIteratorImpl_& other)
                 : ptr_(other.ptr_),
                   mask_((other.mask_) ? std::make_unique<MaskInfo>(*other.mask_) : nullptr),
                   shape_((other.shape_) ? std::make_unique<ShapeInfo>(*other.shape_) : nullptr) {}
@@ -317,7 +317,7 @@ class Array {
         // The iterator does not own the mask or the fill value. Therefore
         // the mask/fill must outlive the iterator.
         ArrayIteratorImpl_(value_type* data_ptr, const value_type* mask_ptr,
-                           value_type* fill_ptr) noexcept
+                           value_type* fill_ptr)
                 : ptr_(data_ptr),
                   mask_(std::make_unique<MaskInfo>(mask_ptr, fill_ptr)),
                   shape_(nullptr) {}
@@ -326,7 +326,7 @@ class Array {
         // The iterator does not own the shape/strides, it only holds a pointer.
         // Therefore shape/strides must outlive the iterator.
         ArrayIteratorImpl_(value_type* ptr, ssize_t ndim, const ssize_t* shape,
-                           const ssize_t* strides) noexcept
+                           const ssize_t* strides)
                 : ptr_(ptr),
                   mask_(nullptr),
                   shape_(std::make_unique<ShapeInfo>(ndim, shape, strides)) {}
@@ -547,7 +547,7 @@ class Array {
         struct ShapeInfo {
             ShapeInfo() = delete;
 
-            ShapeInfo(ssize_t ndim, const ssize_t* shape, const ssize_t* strides) noexcept
+            ShapeInfo(ssize_t ndim, const ssize_t* shape, const ssize_t* strides)
                     : ndim(ndim),
                       shape(shape),
                       strides(strides),
@@ -558,7 +558,7 @@ class Array {
             }
 
             // Copy constructor
-            ShapeInfo(const ShapeInfo& other) noexcept
+            ShapeInfo(const ShapeInfo& other)
                     : ndim(other.ndim),
                       shape(other.shape),
                       strides(other.strides),
@@ -864,7 +864,7 @@ class Array {
     // Expects the shape to be stored in a C-style array of length ndim.
     // Returns the strides as a C-style array of length ndim managed by a unique_ptr.
     static std::unique_ptr<ssize_t[]> shape_to_strides(const ssize_t ndim,
-                                                       const ssize_t* shape) noexcept {
+                                                       const ssize_t* shape) {
         if (ndim <= 0) return nullptr;
         auto strides = std::make_unique<ssize_t[]>(ndim);
         // otherwise strides are a function of the shape
@@ -912,7 +912,7 @@ class ArrayOutputMixin : public Base {
 
  private:
     template <class Range>
-    static std::unique_ptr<ssize_t[]> make_shape(Range&& shape) noexcept {
+    static std::unique_ptr<ssize_t[]> make_shape(Range&& shape) {
         if (shape.size() == 0) return nullptr;
         auto ptr = std::make_unique<ssize_t[]>(shape.size());
         std::copy(shape.begin(), shape.end(), ptr.get());
diff --git a/dwave/optimization/src/nodes/flow.cpp b/dwave/optimization/src/nodes/flow.cpp
index 73d527f..d81e54a 100644
--- a/dwave/optimization/src/nodes/flow.cpp
+++ b/dwave/optimization/src/nodes/flow.cpp
@@ -44,7 +44,7 @@ std::span<const ssize_t> same_shape(const Array* node_ptr,
 
 struct WhereNodeData : ArrayNodeStateData {
     // Initialize the state with the values given
-    explicit WhereNodeData(const Array::View values) noexcept
+    explicit WhereNodeData(const Array::View values)
             : ArrayNodeStateData(std::vector<double>(values.begin(), values.end())) {}
 
     explicit WhereNodeData(std::vector<double>&& values) noexcept
-- 
2.43.0


From 0edd6e7ed406c86b58cc4944c2ad0d95ff8563de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:59 +0000
Subject: [PATCH 14/30] fix: bounds of squares, products, sums and reductions
 over arrays that may be empty, and invalid constructions

Also report the size of dynamic unary operations and of where().
---
 .../include/dwave-optimization/nodes/flow.hpp |   1 +
 .../dwave-optimization/nodes/mathematical.hpp |   1 +
 dwave/optimization/src/nodes/flow.cpp         |  14 ++
 dwave/optimization/src/nodes/indexing.cpp     |   5 +-
 dwave/optimization/src/nodes/mathematical.cpp | 123 ++++++++++++------
 5 files changed, 105 insertions(+), 39 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/flow.hpp b/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
index 5004cb7..439e3c5 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
@@ -44,6 +44,7 @@ class WhereNode : public ArrayOutputMixin<ArrayNode> {
     using Array::size;
     ssize_t size(const State& state) const override;
     ssize_t size_diff(const State& state) const override;
+    SizeInfo sizeinfo() const override;
 
  private:
     // these are redundant, but convenient
diff --git a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
index 6e453ef..62fe755 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
@@ -346,6 +346,7 @@ class UnaryOpNode : public ArrayOutputMixin<ArrayNode> {
     using ArrayOutputMixin::size;
     ssize_t size(const State& state) const override;
     ssize_t size_diff(const State& state) const override;
+    SizeInfo sizeinfo() const override;
 
     void commit(State& state) const override;
     void revert(State& state) const override;
diff --git a/dwave/optimization/src/nodes/flow.cpp b/dwave/optimization/src/nodes/flow.cpp
index d81e54a..8c1bae8 100644
--- a/dwave/optimization/src/nodes/flow.cpp
+++ b/dwave/optimization/src/nodes/flow.cpp
@@ -258,4 +258,18 @@ ssize_t WhereNode::size_diff(const State& state) const {
     return data_ptr<WhereNodeData>(state)->size_diff();
 }
 
+SizeInfo WhereNode::sizeinfo() const {
+    if (!this->dynamic()) return SizeInfo(this->size());
+
+    // we're dynamic. Which should only happen when `condition` is a single value, in which
+    // case we can be as small as the smaller one and as large as the larger one
+    const SizeInfo x = x_ptr_->sizeinfo().substitute(100);
+    const SizeInfo y = y_ptr_->sizeinfo().substitute(100);
+
+    SizeInfo sizeinfo(this);
+    if (x.min && y.min) sizeinfo.min = std::min(*x.min, *y.min);
+    if (x.max && y.max) sizeinfo.max = std::max(*x.max, *y.max);
+    return sizeinfo;
+}
+
 }  // namespace dwave::optimization
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 5f2c665..43baabc 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -244,7 +244,10 @@ struct AdvancedIndexingNode::IndexParser_ {
                                         std::to_string(indices_.size()) + " were indexed");
         }
 
-        if (array_ptr->ndim() == 0) return;
+        if (array_ptr->ndim() == 0) {
+            throw std::invalid_argument(
+                    "there must be at least one array-type index to use AdvancedIndexingNode");
+        }
 
         bool encountered_array = false;
         bool encountered_slice_after_array = false;
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 879009c..7d5821d 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -23,6 +23,12 @@ namespace dwave::optimization {
 
 // BinaryOpNode ************************************************************
 
+// The product of two bounds. A bound of 0 is exact while an infinite one stands for
+// (arbitrarily) large values, so their product is 0 rather than NaN.
+double bounds_product(const double lhs, const double rhs) {
+    return (lhs == 0 || rhs == 0) ? 0 : lhs * rhs;
+}
+
 template <class BinaryOp>
 BinaryOpNode<BinaryOp>::BinaryOpNode(ArrayNode* a_ptr, ArrayNode* b_ptr)
         : ArrayOutputMixin(broadcast_shape(a_ptr->shape(), b_ptr->shape())),
@@ -34,7 +40,12 @@ BinaryOpNode<BinaryOp>::BinaryOpNode(ArrayNode* a_ptr, ArrayNode* b_ptr)
     // If one size is a scalar, we also support dynamic arrays.
     // Otherwise both arrays must be the same shape and not be dynamic
     if (lhs_ptr->size() == 1 || rhs_ptr->size() == 1) {
-        // this is allowed
+        // this is allowed, but only the first axis of the result can be dynamic
+        if ((lhs_ptr->dynamic() && lhs_ptr->ndim() < rhs_ptr->ndim()) ||
+            (rhs_ptr->dynamic() && rhs_ptr->ndim() < lhs_ptr->ndim())) {
+            throw std::invalid_argument(
+                    "a dynamic array cannot be broadcast to a larger number of dimensions");
+        }
     } else if (lhs_ptr->dynamic() || rhs_ptr->dynamic()) {
         throw std::invalid_argument("cannot perform a binary op on two dynamic arrays");
     } else if (!std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
@@ -195,8 +206,8 @@ double BinaryOpNode<BinaryOp>::max() const {
         double rhs_low = rhs_ptr->min();
         double rhs_high = rhs_ptr->max();
 
-        return std::max(
-                {lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low, lhs_high * rhs_high});
+        return std::max({bounds_product(lhs_low, rhs_low), bounds_product(lhs_low, rhs_high),
+                         bounds_product(lhs_high, rhs_low), bounds_product(lhs_high, rhs_high)});
     }
 
     assert(false && "not implemeted yet");
@@ -248,8 +259,8 @@ double BinaryOpNode<BinaryOp>::min() const {
         double rhs_low = rhs_ptr->min();
         double rhs_high = rhs_ptr->max();
 
-        return std::min(
-                {lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low, lhs_high * rhs_high});
+        return std::min({bounds_product(lhs_low, rhs_low), bounds_product(lhs_low, rhs_high),
+                         bounds_product(lhs_high, rhs_low), bounds_product(lhs_high, rhs_high)});
     }
 
     assert(false && "not implemeted yet");
@@ -584,11 +595,13 @@ double NaryOpNode<BinaryOp>::max() const {
             double rhs_low = rhs_ptr->min();
             double rhs_high = rhs_ptr->max();
 
-            double tmp = std::min({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                   lhs_high * rhs_high});
+            double tmp = std::min(
+                    {bounds_product(lhs_low, rhs_low), bounds_product(lhs_low, rhs_high),
+                     bounds_product(lhs_high, rhs_low), bounds_product(lhs_high, rhs_high)});
 
-            lhs_high = std::max({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                 lhs_high * rhs_high});
+            lhs_high = std::max(
+                    {bounds_product(lhs_low, rhs_low), bounds_product(lhs_low, rhs_high),
+                     bounds_product(lhs_high, rhs_low), bounds_product(lhs_high, rhs_high)});
 
             lhs_low = tmp;
         }
@@ -635,11 +648,13 @@ double NaryOpNode<BinaryOp>::min() const {
             double rhs_low = rhs_ptr->min();
             double rhs_high = rhs_ptr->max();
 
-            double tmp = std::min({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                   lhs_high * rhs_high});
+            double tmp = std::min(
+                    {bounds_product(lhs_low, rhs_low), bounds_product(lhs_low, rhs_high),
+                     bounds_product(lhs_high, rhs_low), bounds_product(lhs_high, rhs_high)});
 
-            lhs_high = std::max({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                 lhs_high * rhs_high});
+            lhs_high = std::max(
+                    {bounds_product(lhs_low, rhs_low), bounds_product(lhs_low, rhs_high),
+                     bounds_product(lhs_high, rhs_low), bounds_product(lhs_high, rhs_high)});
 
             lhs_low = tmp;
         }
@@ -770,6 +785,9 @@ template class NaryOpNode<std::plus<double>>;
 // PartialReduceNode *****************************************************************
 std::vector<ssize_t> partial_reduce_shape(const std::span<const ssize_t> input_shape,
                                           const ssize_t axis) {
+    if (axis < 0 || axis >= static_cast<ssize_t>(input_shape.size())) {
+        throw std::invalid_argument("Axes should be integers between 0 and n_dim - 1");
+    }
     std::vector<ssize_t> shape(input_shape.begin(), input_shape.end());
     shape.erase(shape.begin() + axis);
     return shape;
@@ -816,11 +834,9 @@ PartialReduceNode<BinaryOp>::PartialReduceNode(ArrayNode* node_ptr, std::span<co
         throw std::invalid_argument("Partial reduction support only one axis");
     }
 
+    // The axis itself was checked when determining the shape
     assert(this->ndim() == array_ptr_->ndim() - 1);
-    ssize_t axis = axes_[0];
-    if (axis < 0 || axis >= array_ptr_->ndim()) {
-        throw std::invalid_argument("Axes should be integers between 0 and n_dim - 1");
-    }
+    assert(axes_[0] >= 0 && axes_[0] < array_ptr_->ndim());
 
     add_predecessor(node_ptr);
 }
@@ -1300,6 +1316,12 @@ bool ReduceNode<BinaryOp>::integral() const {
     unreachable();
 }
 
+// Whether the array might contain no elements
+bool maybe_empty(const Array* array_ptr) {
+    if (!array_ptr->dynamic()) return array_ptr->size() == 0;
+    return array_ptr->sizeinfo().substitute(100).min.value_or(0) <= 0;
+}
+
 template <class BinaryOp>
 double ReduceNode<BinaryOp>::max() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
@@ -1315,6 +1337,8 @@ double ReduceNode<BinaryOp>::max() const {
         return array_ptr_->max();
     }
     if constexpr (std::is_same<BinaryOp, functional::min<double>>::value) {
+        // if the array is empty then init is all that there is
+        if (init.has_value() && maybe_empty(array_ptr_)) return init.value();
         if (init.has_value()) return std::min(init.value(), array_ptr_->max());
         return array_ptr_->max();
     }
@@ -1334,16 +1358,18 @@ double ReduceNode<BinaryOp>::max() const {
         const double high = array_ptr_->max();
 
         // exactly one element, handle the sign of init
-        if (array_ptr_->size() == 1) return std::max(init * low, init * high);
+        if (array_ptr_->size() == 1) {
+            return std::max(bounds_product(init, low), bounds_product(init, high));
+        }
 
         const ssize_t size = array_ptr_->size();
 
         // more than one element
         return std::max({
-            init * std::pow(low, size),
-            init * std::pow(high, size),
-            init * low * std::pow(high, size - 1),
-            init * high * std::pow(low, size - 1),
+            bounds_product(init, std::pow(low, size)),
+            bounds_product(init, std::pow(high, size)),
+            bounds_product(init, bounds_product(low, std::pow(high, size - 1))),
+            bounds_product(init, bounds_product(high, std::pow(low, size - 1))),
         });
     }
     if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
@@ -1356,7 +1382,7 @@ double ReduceNode<BinaryOp>::max() const {
         // if the array has a fixed size, then just multiply the largest value
         // by that size
         if (const ssize_t size = array_ptr_->size(); size >= 0) {
-            return init + size * high;
+            return init + bounds_product(size, high);
         }
 
         // our predecessor array is dynamic. So there are a few more cases
@@ -1375,11 +1401,11 @@ double ReduceNode<BinaryOp>::max() const {
             // default max.
             if (!sizeinfo.max.has_value()) return Array::max();
 
-            return init + sizeinfo.max.value() * high;
+            return init + bounds_product(sizeinfo.max.value(), high);
         } else {
             // if high is negative, then we're interested in the minimum size
             // of the array
-            return init + sizeinfo.min.value_or(0) * high;
+            return init + bounds_product(sizeinfo.min.value_or(0), high);
         }
     }
 
@@ -1398,6 +1424,8 @@ double ReduceNode<BinaryOp>::min() const {
     // These can results in inf. If we fix that in initialization/propagation we
     // should also fix it here.
     if constexpr (std::is_same<BinaryOp, functional::max<double>>::value) {
+        // if the array is empty then init is all that there is
+        if (init.has_value() && maybe_empty(array_ptr_)) return init.value();
         if (init.has_value()) return std::max(init.value(), array_ptr_->min());
         return array_ptr_->min();
     }
@@ -1421,16 +1449,18 @@ double ReduceNode<BinaryOp>::min() const {
         const double high = array_ptr_->max();
 
         // exactly one element, handle the sign of init
-        if (array_ptr_->size() == 1) return std::min(init * low, init * high);
+        if (array_ptr_->size() == 1) {
+            return std::min(bounds_product(init, low), bounds_product(init, high));
+        }
 
         const ssize_t size = array_ptr_->size();
 
         // more than one element
         return std::min({
-            init * std::pow(low, size),
-            init * std::pow(high, size),
-            init * low * std::pow(high, size - 1),
-            init * high * std::pow(low, size - 1),
+            bounds_product(init, std::pow(low, size)),
+            bounds_product(init, std::pow(high, size)),
+            bounds_product(init, bounds_product(low, std::pow(high, size - 1))),
+            bounds_product(init, bounds_product(high, std::pow(low, size - 1))),
         });
     }
     if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
@@ -1443,7 +1473,7 @@ double ReduceNode<BinaryOp>::min() const {
         // if the array has a fixed size, then just multiply the smallest value
         // by that size
         if (const ssize_t size = array_ptr_->size(); size >= 0) {
-            return init + size * low;
+            return init + bounds_product(size, low);
         }
 
         // our predecessor array is dynamic. So there are a few more cases
@@ -1462,11 +1492,11 @@ double ReduceNode<BinaryOp>::min() const {
             // default min.
             if (!sizeinfo.max.has_value()) return Array::min();
 
-            return init + sizeinfo.max.value() * low;
+            return init + bounds_product(sizeinfo.max.value(), low);
         } else {
             // if low is positive, then we're interested in the minimum size
             // of the array
-            return init + sizeinfo.min.value_or(0) * low;
+            return init + bounds_product(sizeinfo.min.value_or(0), low);
         }
     }
 
@@ -1643,7 +1673,8 @@ void ReduceNode<std::multiplies<double>>::propagate(State& state) const {
             num_zero += 1;
         } else {
             // something else to something else
-            nonzero *= (update.value / update.old);
+            nonzero /= update.old;
+            nonzero *= update.value;
         }
     }
 
@@ -1800,8 +1831,9 @@ double UnaryOpNode<std::negate<double>>::max() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::max() const {
-    const double max = array_ptr_->max();
-    if (std::abs(max) >= std::sqrt(Array::max())) {
+    // the value furthest from 0
+    const double max = std::max(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
+    if (max >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
@@ -1849,8 +1881,10 @@ double UnaryOpNode<std::negate<double>>::min() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::min() const {
-    const double min = array_ptr_->min();
-    if (std::abs(min) >= std::sqrt(Array::max())) {
+    // the value closest to 0
+    if (array_ptr_->min() <= 0 && array_ptr_->max() >= 0) return 0;
+    const double min = std::min(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
+    if (min >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
@@ -1910,6 +1944,19 @@ ssize_t UnaryOpNode<UnaryOp>::size(const State& state) const {
     return data_ptr<ArrayNodeStateData>(state)->buffer.size();
 }
 
+template <class UnaryOp>
+SizeInfo UnaryOpNode<UnaryOp>::sizeinfo() const {
+    if (!this->dynamic()) return SizeInfo(this->size());
+
+    // there are no elements in any row
+    const ssize_t num_per_row = this->strides()[0] / this->itemsize();
+    if (!num_per_row) return SizeInfo(0);
+
+    auto sizeinfo = SizeInfo(array_ptr_);
+    sizeinfo.granularity = num_per_row;
+    return sizeinfo;
+}
+
 template <class UnaryOp>
 ssize_t UnaryOpNode<UnaryOp>::size_diff(const State& state) const {
     return data_ptr<ArrayNodeStateData>(state)->size_diff();
-- 
2.43.0


From d6353f0baebfba68b8ff939df26fcb5d8478ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:59 +0000
Subject: [PATCH 15/30] fix: the distance between two strided iterators changes
 the iterators

---
 dwave/optimization/include/dwave-optimization/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index e58140a..912cd77 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -467,8 +467,8 @@ class Array {
             difference_type offset = 0;
             ssize_t incs_per_step = 1;  // for each step in the axis how many increment operations
             {
-                ssize_t* target_loc = a.shape_->loc.get();
-                ssize_t* source_loc = b.shape_->loc.get();
+                ssize_t* target_loc = target.shape_->loc.get();
+                ssize_t* source_loc = source.shape_->loc.get();
 
                 for (ssize_t axis = shapeinfo.ndim - 1; axis > 0; --axis) {
                     const ssize_t stride = shapeinfo.strides[axis] / itemsize;
-- 
2.43.0


From 7ecba66fda6b9a86b83ed07a584cfee951888c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:03 +0000
Subject: [PATCH 16/30] fix: AdvancedIndexingNode places new rows in order when
 several slices precede the indexer

---
 .../dwave-optimization/nodes/indexing.hpp     |  3 +-
 dwave/optimization/src/nodes/indexing.cpp     | 47 ++++++++++---------
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 0a17f92..8253725 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -103,10 +103,9 @@ class AdvancedIndexingNode : public ArrayNode {
     void fill_subspace(State& state, ssize_t array_offset, std::vector<double>& data,
                        ssize_t index_in_arrays, std::vector<Update>& diff) const;
 
-    template <bool placement, bool removal>
     void fill_axis0_subspace(State& state, ssize_t axis0_index, ssize_t array_item_offset,
                              std::vector<double>& data, ssize_t index_in_arrays,
-                             std::vector<Update>& diff) const;
+                             std::vector<Update>* diff) const;
 
     // Rewrite the size of the first axis kept in the state, if it is dynamic
     void update_shape(State& state) const;
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 43baabc..8f11345 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -516,17 +516,22 @@ void AdvancedIndexingNode::fill_subspace(State& state, ssize_t array_item_offset
             index_in_arrays * subspace_stride_, starting_output_axis, &diff);
 }
 
-template <bool placement, bool removal>
 void AdvancedIndexingNode::fill_axis0_subspace(State& state, ssize_t axis0_index,
                                                ssize_t array_item_offset, std::vector<double>& data,
                                                ssize_t index_in_arrays,
-                                               std::vector<Update>& diff) const {
+                                               std::vector<Update>* diff) const {
     assert(!bullet1mode_ && "fill_axis0_subspace should only be called with bullet 2 mode");
     ssize_t array_offset = axis0_index * array_ptr_->strides()[0] + array_item_offset * itemsize();
     size_t data_offset = axis0_index * strides()[0] + index_in_arrays * subspace_stride_;
-    fill_subspace_recurse<true, placement, removal>(array_ptr_->shape(state),
-                                                    array_ptr_->buff(state), array_offset, 1, data,
-                                                    data_offset, 1, &diff);
+    if (diff) {
+        fill_subspace_recurse<true, false, false>(array_ptr_->shape(state),
+                                                  array_ptr_->buff(state), array_offset, 1, data,
+                                                  data_offset, 1, diff);
+    } else {
+        fill_subspace_recurse<false, false, false>(array_ptr_->shape(state),
+                                                   array_ptr_->buff(state), array_offset, 1, data,
+                                                   data_offset, 1, nullptr);
+    }
 }
 
 template <bool fill_diff, bool placement, bool removal>
@@ -865,27 +870,27 @@ void AdvancedIndexingNode::propagate(State& state) const {
         ssize_t new_axis0_size = new_parent_size / array_num_per_row;
         ssize_t unchanged_axis0_size = std::min(new_axis0_size, old_axis0_size);
         // First handle any changes to the size of the parent array
+        const ssize_t num_per_row = strides()[0] / itemsize();
         if (new_axis0_size > old_axis0_size) {
-            // Growing, so need placements
+            // Growing, so need placements. The subspaces of the offsets might be interleaved
+            // so we fill the rows first, and then place their elements in order.
+            const ssize_t old_data_size = data.size();
+            data.resize(new_axis0_size * num_per_row);
             for (ssize_t axis0_idx = old_axis0_size; axis0_idx < new_axis0_size; ++axis0_idx) {
                 for (ssize_t offset_idx = 0; offset_idx < node_data->offsets_size(); ++offset_idx) {
-                    fill_axis0_subspace<true, false>(state, axis0_idx,
-                                                     node_data->offsets()[offset_idx], data,
-                                                     offset_idx, diff);
+                    fill_axis0_subspace(state, axis0_idx, node_data->offsets()[offset_idx], data,
+                                        offset_idx, nullptr);
                 }
             }
+            for (ssize_t i = old_data_size, stop = data.size(); i < stop; ++i) {
+                diff.emplace_back(Update::placement(i, data[i]));
+            }
         }
 
-        if (new_axis0_size < old_axis0_size) {
-            // Shrinking, so need removals
-            for (ssize_t axis0_idx = old_axis0_size - 1; axis0_idx >= new_axis0_size; --axis0_idx) {
-                for (ssize_t offset_idx = node_data->offsets_size() - 1; offset_idx >= 0;
-                     --offset_idx) {
-                    fill_axis0_subspace<false, true>(state, axis0_idx,
-                                                     node_data->offsets()[offset_idx], data,
-                                                     offset_idx, diff);
-                }
-            }
+        // Shrinking, so need removals
+        while (static_cast<ssize_t>(data.size()) > new_axis0_size * num_per_row) {
+            diff.emplace_back(Update::removal(data.size() - 1, data.back()));
+            data.pop_back();
         }
 
         // Now handle the changes to offsets for axis0 indices that are have not just been placed
@@ -894,8 +899,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
             for (ssize_t axis0_idx = 0; axis0_idx < unchanged_axis0_size; ++axis0_idx) {
                 assert(!offset_update.placed());
                 assert(!offset_update.removed());
-                fill_axis0_subspace<false, false>(state, axis0_idx, offset_update.value, data,
-                                                  offset_update.index, diff);
+                fill_axis0_subspace(state, axis0_idx, offset_update.value, data,
+                                    offset_update.index, &diff);
             }
             offset_idxs_updated.insert(offset_update.index);
         }
-- 
2.43.0


From 448500fb85a74c90346f07e4310ca9dca8ada840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:52 +0000
Subject: [PATCH 17/30] fix: Absolute's bounds are defined for an array that is
 always empty

---
 dwave/optimization/src/nodes/mathematical.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 7d5821d..2989fe6 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1812,13 +1812,10 @@ template <>
 double UnaryOpNode<functional::abs<double>>::max() const {
     const double max = array_ptr_->max();
     const double min = array_ptr_->min();
-    assert(min <= max && "min > max");
 
-    if (min >= 0 && max >= 0) {
+    if (min >= 0) {
+        // an array that is always empty can have min > max
         return max;
-    } else if (min >= 0) {
-        assert(false && "min > max");
-        unreachable();
     } else if (max >= 0) {
         return std::max<double>(max, -min);
     } else {
@@ -1862,13 +1859,10 @@ template <>
 double UnaryOpNode<functional::abs<double>>::min() const {
     const double max = array_ptr_->max();
     const double min = array_ptr_->min();
-    assert(min <= max && "min > max");
 
-    if (min >= 0 && max >= 0) {
+    if (min >= 0) {
+        // an array that is always empty can have min > max
         return min;
-    } else if (min >= 0) {
-        assert(false && "min > max");
-        unreachable();
     } else if (max >= 0) {
         return 0;
     } else {
-- 
2.43.0


From 8e7cd99c7e75f4d07d91342c863c8758f6c10608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:48 +0000
Subject: [PATCH 18/30] fix: BasicIndexing with a dimension of length 0 saved
 other indices than its own

---
 .../include/dwave-optimization/nodes/indexing.hpp |  4 ++++
 dwave/optimization/src/nodes/indexing.cpp         | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 8253725..ddaa773 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -254,6 +254,10 @@ class BasicIndexingNode : public ArrayNode {
     // is dynamic
     const std::optional<Slice> axis0_slice_;
 
+    // The (fitted) indices, kept only when the view has a dimension of length 0. They cannot
+    // be inferred from the start and the strides in that case.
+    const std::vector<slice_or_int> empty_view_indices_;
+
     const bool contiguous_;
 };
 
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 8f11345..2e4f620 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -993,7 +993,8 @@ struct BasicIndexingNode::IndexParser_ {
 
         ssize_t array_dim = 0;  // current dim in the array
         ssize_t view_dim = 0;   // current dim in the view
-        for (const slice_or_int& index : indices) {
+        bool empty = false;     // whether a dimension of the view has length 0
+        for (slice_or_int& index : indices) {
             assert(array_dim >= view_dim);  // view.ndim <= array.ndim
 
             if (std::holds_alternative<Slice>(index)) {
@@ -1037,6 +1038,9 @@ struct BasicIndexingNode::IndexParser_ {
                     // of bytes, so we have to be careful
                     // We
                     this->start += fitted.start * array_strides[array_dim] / array_ptr->itemsize();
+
+                    empty = empty || !fitted.size();
+                    index = fitted;
                 }
 
                 ++view_dim;
@@ -1061,10 +1065,14 @@ struct BasicIndexingNode::IndexParser_ {
                 // Integer indices only affect the start, they drop the dimension
                 // so there is no strides/shape to worry about for this axis
                 this->start += idx * array_strides[array_dim] / array_ptr->itemsize();
+
+                index = idx;
             }
 
             ++array_dim;  // we are always stepping through the array
         }
+
+        if (empty) empty_view_indices = std::move(indices);
     }
 
     ssize_t ndim = 0;
@@ -1074,6 +1082,8 @@ struct BasicIndexingNode::IndexParser_ {
     ssize_t start = 0;
 
     std::optional<Slice> axis0_slice;
+
+    std::vector<slice_or_int> empty_view_indices;
 };
 
 BasicIndexingNode::BasicIndexingNode(ArrayNode* array_ptr, std::vector<slice_or_int> indices)
@@ -1087,6 +1097,7 @@ BasicIndexingNode::BasicIndexingNode(ArrayNode* array_ptr, IndexParser_&& parser
           start_(parser.start),
           size_(Array::shape_to_size(ndim_, shape_.get())),
           axis0_slice_(parser.axis0_slice),
+          empty_view_indices_(std::move(parser.empty_view_indices)),
           contiguous_(Array::is_contiguous(ndim_, shape_.get(), strides_.get())) {
     add_predecessor(array_ptr);
 }
@@ -1164,6 +1175,8 @@ std::span<const Update> BasicIndexingNode::diff(const State& state) const {
 }
 
 std::vector<BasicIndexingNode::slice_or_int> BasicIndexingNode::infer_indices() const {
+    if (!empty_view_indices_.empty()) return empty_view_indices_;
+
     std::vector<slice_or_int> indices;
 
     ssize_t view_dim = 0;
-- 
2.43.0


From b26140bf17f272369e625803c884b19a56f23da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:48 +0000
Subject: [PATCH 19/30] fix: saving a QuadraticModel without interactions
 failed; check the rows of its coordinates

---
 dwave/optimization/symbols.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index ce69812..0d090ae 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2604,6 +2604,8 @@ cdef class QuadraticModel(ArraySymbol):
         cdef double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
         cdef int[:, ::1] coords = np.ascontiguousarray(np.atleast_2d(quadratic[1]), dtype=np.intc)
 
+        if coords.shape[0] != 2:
+            raise ValueError("expected two rows of coordinates")
         if data.shape[0] != coords.shape[1]:
             # SciPy's error message
             raise ValueError("row, column, and data array must all be the same length")
@@ -2750,7 +2752,8 @@ cdef class QuadraticModel(ArraySymbol):
             coords[1, i] = i
 
         # this works because each row of coords is contiguous!
-        qm.get_quadratic(&coords[0, num_variables], &coords[1, num_variables], &qdata[num_variables])
+        if num_terms > num_variables:
+            qm.get_quadratic(&coords[0, num_variables], &coords[1, num_variables], &qdata[num_variables])
 
         with zf.open(directory + "linear.npy", mode="w", force_zip64=True) as f:
             np.save(f, ldata, allow_pickle=False)
-- 
2.43.0


From 3de2047e9ce698c31e1ae57a777eb87c942be1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:14 +0000
Subject: [PATCH 20/30] fix: states without a value for a DisjointBitSets or
 DisjointLists symbol could not be loaded

---
 dwave/optimization/symbols.pyx | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 0d090ae..0c4d36c 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1174,6 +1174,13 @@ cdef class DisjointBitSets(Symbol):
         self.ptr.initialize_state((<States>self.model.states)._states[index], move(sets))
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
+        # check if there is any state data saved (it can be sparse)
+        try:
+            zf.getinfo(directory+"set0")
+        except KeyError:
+            # no state data encoded
+            return
+
         arrays = []
         for i in range(self.num_disjoint_sets()):
             with zf.open(directory+f"set{i}", mode="r") as f:
@@ -1186,6 +1193,10 @@ cdef class DisjointBitSets(Symbol):
         # todo: use a view not a copy
         arrays = [np.asarray(s.state(state_index), dtype=np.int8) for s in self.iter_successors()]
 
+        if len(arrays) < self.num_disjoint_sets():
+            # a state that is not complete could not be read back
+            raise ValueError(f"cannot save the state of a {type(self).__name__} without its sets")
+
         for i, arr in enumerate(arrays):
             with zf.open(directory+f"set{i}", mode="w", force_zip64=True) as f:
                 np.save(f, arr, allow_pickle=False)
@@ -1427,6 +1438,13 @@ cdef class DisjointLists(Symbol):
         self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
+        # check if there is any state data saved (it can be sparse)
+        try:
+            zf.getinfo(directory+"list0")
+        except KeyError:
+            # no state data encoded
+            return
+
         arrays = []
         for i in range(self.num_disjoint_lists()):
             with zf.open(directory+f"list{i}", mode="r") as f:
@@ -1439,6 +1457,10 @@ cdef class DisjointLists(Symbol):
         # todo: use a view not a copy
         arrays = [li.state(state_index) for li in self.iter_successors()]
 
+        if len(arrays) < self.num_disjoint_lists():
+            # a state that is not complete could not be read back
+            raise ValueError(f"cannot save the state of a {type(self).__name__} without its lists")
+
         for i, arr in enumerate(arrays):
             with zf.open(directory+f"list{i}", mode="w", force_zip64=True) as f:
                 np.save(f, arr, allow_pickle=False)
-- 
2.43.0


From f4a131d7f3827c392249e254558f9dab8c86f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:36 +0000
Subject: [PATCH 21/30] fix: in-place operations could tie symbols of two
 models, close a cycle or change a locked model

---
 dwave/optimization/symbols.pyx | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 0c4d36c..70e6fad 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -32,6 +32,7 @@ from libcpp.cast cimport dynamic_cast
 from libcpp.optional cimport nullopt, optional
 from libcpp.typeindex cimport type_index
 from libcpp.unordered_map cimport unordered_map
+from libcpp.unordered_set cimport unordered_set
 from libcpp.utility cimport move
 from libcpp.vector cimport vector
 
@@ -217,6 +218,30 @@ cdef vector[Py_ssize_t] _as_cppshape(object shape):
     return shape
 
 
+cdef bool _can_add_operand(Symbol symbol, Symbol operand):
+    """Whether ``operand`` can be added as an operand to the already existing ``symbol``."""
+    if symbol.model is not operand.model or symbol.model.is_locked():
+        return False
+
+    # an operand that itself depends on symbol would create a cycle
+    cdef unordered_set[cppNode*] seen
+    cdef vector[cppNode*] stack
+    cdef cppNode* ptr
+    cdef Py_ssize_t i
+    stack.push_back(symbol.node_ptr)
+    while not stack.empty():
+        ptr = stack.back()
+        stack.pop_back()
+        if ptr == operand.node_ptr:
+            return False
+        if not seen.insert(ptr).second:
+            continue
+        for i in range(<Py_ssize_t>(ptr.successors().size())):
+            stack.push_back(ptr.successors()[i].ptr)
+
+    return True
+
+
 cdef bool _empty_slice(object slice_) noexcept:
     return slice_.start is None and slice_.stop is None and slice_.step is None
 
@@ -2182,7 +2207,7 @@ cdef class NaryAdd(ArraySymbol):
         return x
 
     def __iadd__(self, rhs):
-        if isinstance(rhs, ArraySymbol):
+        if isinstance(rhs, ArraySymbol) and _can_add_operand(self, rhs):
             self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
             return self
 
@@ -2338,7 +2363,7 @@ cdef class NaryMultiply(ArraySymbol):
         return x
 
     def __imul__(self, rhs):
-        if isinstance(rhs, ArraySymbol):
+        if isinstance(rhs, ArraySymbol) and _can_add_operand(self, rhs):
             self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
             return self
 
-- 
2.43.0


From 7f4f35893146662fd5c6a90a70f0c486384928bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:36 +0000
Subject: [PATCH 22/30] fix: a save of an already locked model kept no lock of
 its own

---
 dwave/optimization/_model.pyx | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 3ffc592..7e57f62 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -257,19 +257,17 @@ cdef class _Graph:
 
         TODO: describe the format
         """
-        if not self.is_locked():
-            # lock for the duration of the method
-            with self.lock():
-                return self.into_file(file, max_num_states=max_num_states, only_decision=only_decision)
+        # lock for the duration of the method, even if the model is already locked. Whoever holds
+        # the other lock(s) might release them before we are done.
+        with self.lock():
+            if isinstance(file, str):
+                with open(file, "wb") as f:
+                    return self._into_file(f, max_num_states, only_decision)
 
-        if isinstance(file, str):
-            with open(file, "wb") as f:
-                return self.into_file(
-                    f,
-                    max_num_states=max_num_states,
-                    only_decision=only_decision,
-                    )
+            return self._into_file(file, max_num_states, only_decision)
 
+    def _into_file(self, file, Py_ssize_t max_num_states, bool only_decision):
+        """Serialize the model into an existing file. The model must be locked."""
         version = (0, 1)
 
         model_info = self._header_data(max_num_states=max_num_states, only_decision=only_decision)
-- 
2.43.0


From 284ef9a582a04a4d6a8e1c2ef0bd6636f0dbe87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:36 +0000
Subject: [PATCH 23/30] fix: unlocking a model retrieved its pending states,
 and kept stale ones if that failed

---
 dwave/optimization/states.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/states.pyx b/dwave/optimization/states.pyx
index c05760e..2fa3b6d 100644
--- a/dwave/optimization/states.pyx
+++ b/dwave/optimization/states.pyx
@@ -225,7 +225,8 @@ cdef class States:
     def _reset_intermediate_states(self):
         """Reset any non-decision states."""
         cdef Py_ssize_t num_decisions = self._model().num_decisions()
-        for i in range(self.size()):
+        # the states of a pending future don't exist yet, so there is no need to resolve it here
+        for i in range(<Py_ssize_t>(self._states.size())):
             self._states[i].resize(num_decisions)
 
     def resize(self, Py_ssize_t n):
-- 
2.43.0


From 69b6899091b4fc12bdb140962cc42483f6dd8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:57 +0000
Subject: [PATCH 24/30] fix: states could be loaded into a model with other
 decisions than those they were saved from

---
 dwave/optimization/_model.pyx  |  4 ++++
 dwave/optimization/states.pyx  |  9 +++----
 dwave/optimization/symbols.pyx | 43 ++++++++++++++++++++++++++++++++++
 3 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 7e57f62..223ec15 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -699,6 +699,10 @@ cdef class Symbol:
         # todo: caching
         return all(p.equals(q) for p, q in zip(self.iter_predecessors(), other.iter_predecessors()))
 
+    def _same_domain(self, other):
+        """Whether a decision can take exactly the same values as another decision."""
+        return type(self) is type(other) and self.maybe_equals(other) != 0
+
     cpdef bool expired(self) noexcept:
         return deref(self.expired_ptr)
 
diff --git a/dwave/optimization/states.pyx b/dwave/optimization/states.pyx
index 2fa3b6d..aed4e6c 100644
--- a/dwave/optimization/states.pyx
+++ b/dwave/optimization/states.pyx
@@ -163,10 +163,11 @@ cdef class States:
         cdef _Graph model = Model.from_file(file, check_header=check_header)
         cdef States states = model.states
 
-        # Check that the model is compatible
-        for n0, n1 in zip(model.iter_symbols(), self._model().iter_symbols()):
-            # todo: replace with proper node quality testing once we have it
-            if not isinstance(n0, type(n1)):
+        # Check that the decisions are compatible
+        if model.num_decisions() != self._model().num_decisions():
+            raise ValueError("cannot load states into a model with mismatched decisions")
+        for n0, n1 in zip(model.iter_decisions(), self._model().iter_decisions()):
+            if not n0._same_domain(n1):
                 raise ValueError("cannot load states into a model with mismatched decisions")
 
         self.attach_states(move(states.detach_states()))
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 70e6fad..a711063 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1164,6 +1164,17 @@ cdef class DisjointBitSets(Symbol):
 
         zf.writestr(directory + "shape.json", encoder.encode(shape_info))
 
+    def _same_domain(self, other):
+        # note: docstring inherited from Symbol._same_domain()
+        if not super()._same_domain(other):
+            return False
+
+        cdef DisjointBitSets rhs = other
+        return (
+            self.ptr.primary_set_size() == rhs.ptr.primary_set_size()
+            and self.ptr.num_disjoint_sets() == rhs.ptr.num_disjoint_sets()
+        )
+
     def set_state(self, Py_ssize_t index, state):
         r"""Set the state of the disjoint-sets symbol.
 
@@ -1431,6 +1442,17 @@ cdef class DisjointLists(Symbol):
 
         zf.writestr(directory + "shape.json", encoder.encode(shape_info))
 
+    def _same_domain(self, other):
+        # note: docstring inherited from Symbol._same_domain()
+        if not super()._same_domain(other):
+            return False
+
+        cdef DisjointLists rhs = other
+        return (
+            self.ptr.primary_set_size() == rhs.ptr.primary_set_size()
+            and self.ptr.num_disjoint_lists() == rhs.ptr.num_disjoint_lists()
+        )
+
     def set_state(self, Py_ssize_t index, state):
         r"""Set the state of the disjoint-lists symbol.
 
@@ -1748,6 +1770,13 @@ cdef class IntegerVariable(ArraySymbol):
         """The lowest value allowed for the integer symbol."""
         return int(self.ptr.lower_bound())
 
+    def _same_domain(self, other):
+        # note: docstring inherited from Symbol._same_domain()
+        if not super()._same_domain(other):
+            return False
+
+        return (self.lower_bound(), self.upper_bound()) == (other.lower_bound(), other.upper_bound())
+
     def set_state(self, Py_ssize_t index, state):
         """Set the state of the integer node.
 
@@ -2939,6 +2968,20 @@ cdef class SetVariable(ArraySymbol):
 
         zf.writestr(directory + "shape.json", encoder.encode(shape_info))
 
+    def _same_domain(self, other):
+        # note: docstring inherited from Symbol._same_domain()
+        if not super()._same_domain(other):
+            return False
+
+        cdef SetVariable rhs = other
+        cdef cppSizeInfo lhs_size = self.ptr.sizeinfo()
+        cdef cppSizeInfo rhs_size = rhs.ptr.sizeinfo()
+        return (
+            self.ptr.max() == rhs.ptr.max()
+            and lhs_size.min.value() == rhs_size.min.value()
+            and lhs_size.max.value() == rhs_size.max.value()
+        )
+
     def set_state(self, Py_ssize_t index, state):
         """Set the state of the set node.
 
-- 
2.43.0


From 565b4b8e85d6c172e83f6c241abc6fbaf9916014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:54 +0000
Subject: [PATCH 25/30] fix: setting a disjoint symbol's state converts the
 value before it touches the state, as other decisions do

---
 dwave/optimization/symbols.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index a711063..aacd6d4 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1189,14 +1189,14 @@ cdef class DisjointBitSets(Symbol):
             state:
                 Assignment of values for the state.
         """
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
-
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
         # We go ahead and do the translation to integer now
         cdef bool[:, :] arr = np.asarray(state, dtype=np.bool_)
 
+        # Reset our state, and check whether that's possible
+        self.reset_state(index)
+
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
         cdef vector[vector[double]] sets
@@ -1465,9 +1465,6 @@ cdef class DisjointLists(Symbol):
             state:
                 Assignment of values for the state.
         """
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
-
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
         cdef vector[vector[double]] items
@@ -1481,6 +1478,9 @@ cdef class DisjointLists(Symbol):
             for j in range(len(state[i])):
                 items[i].push_back(arr[j])
 
+        # Reset our state, and check whether that's possible
+        self.reset_state(index)
+
         # The validity of the state is checked in C++
         self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
 
-- 
2.43.0


From 989cd14423d5cdf915a3c522962a7b2cf4042123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:17 +0000
Subject: [PATCH 26/30] fix: a symbol of another model was accepted as
 objective or constraint

---
 dwave/optimization/_model.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 223ec15..a9c698a 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -88,6 +88,8 @@ cdef class _Graph:
         """
         if value is None:
             raise ValueError("value cannot be None")
+        if value.model is not self:
+            raise ValueError("value must be a symbol of this model")
         # TODO: shall we accept array valued constraints?
         self._graph.add_constraint(value.array_ptr)
         return value
@@ -454,6 +456,8 @@ cdef class _Graph:
         """
         if value is None:
             raise ValueError("value cannot be None")
+        if value.model is not self:
+            raise ValueError("value must be a symbol of this model")
         if value.size() < 1:
             raise ValueError("the value of an empty array is ambiguous")
         if value.size() > 1:
-- 
2.43.0


From 8c49d4cab00083f57c0bdee88dbfde26820e3aa4 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 19:55:30 +0000
Subject: [PATCH 27/30] fix: copying a state lost the data of most symbols

---
 dwave/optimization/src/nodes/_state.hpp       |  3 +++
 dwave/optimization/src/nodes/flow.cpp         |  4 ++++
 dwave/optimization/src/nodes/indexing.cpp     | 23 ++++++++++++++-----
 dwave/optimization/src/nodes/manipulation.cpp |  3 +++
 dwave/optimization/src/nodes/mathematical.cpp | 10 ++++++++
 .../src/nodes/quadratic_model.cpp             |  4 ++++
 dwave/optimization/src/nodes/testing.cpp      |  8 +++++++
 7 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/dwave/optimization/src/nodes/_state.hpp b/dwave/optimization/src/nodes/_state.hpp
index f10d9df..b2ce44f 100644
--- a/dwave/optimization/src/nodes/_state.hpp
+++ b/dwave/optimization/src/nodes/_state.hpp
@@ -196,6 +196,9 @@ class ScalarNodeStateData : public NodeStateData {
 
     const double* buff() const { return &update.value; }
     void commit() { update.old = update.value; }
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<ScalarNodeStateData>(*this);
+    }
     std::span<const Update> diff() const {
         return std::span<const Update>(&update, update.old != update.value);
     }
diff --git a/dwave/optimization/src/nodes/flow.cpp b/dwave/optimization/src/nodes/flow.cpp
index 8c1bae8..e74bee0 100644
--- a/dwave/optimization/src/nodes/flow.cpp
+++ b/dwave/optimization/src/nodes/flow.cpp
@@ -50,6 +50,10 @@ struct WhereNodeData : ArrayNodeStateData {
     explicit WhereNodeData(std::vector<double>&& values) noexcept
             : ArrayNodeStateData(std::move(values)) {}
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<WhereNodeData>(*this);
+    }
+
     // Update the buffer according to the given diffs
     void apply_diffs(const Array::View condition, std::span<const Update> condition_diff,
                      const Array::View x, std::span<const Update> x_diff, const Array::View y,
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 2e4f620..6cd0a98 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -35,6 +35,10 @@ struct IndexingNodeData : NodeStateData {
               data(std::move(values)),
               old_size(this->offsets.size()) {}
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<IndexingNodeData>(*this);
+    }
+
     void commit() {
         diff.clear();
         old_offsets.clear();
@@ -97,6 +101,10 @@ struct AdvancedIndexingNodeData : NodeStateData {
         }
     }
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<AdvancedIndexingNodeData>(*this);
+    }
+
     void commit() {
         diff.clear();
         offsets_diff.clear();
@@ -1105,19 +1113,22 @@ BasicIndexingNode::BasicIndexingNode(ArrayNode* array_ptr, IndexParser_&& parser
 struct BasicIndexingNodeData : NodeStateData {
     BasicIndexingNodeData(const BasicIndexingNode* node) {
         if (node->dynamic()) {
-            dynamic_shape = std::make_unique<ssize_t[]>(node->ndim());
             // First dim will be set later
-            std::copy(node->shape().begin(), node->shape().end(), dynamic_shape.get());
+            dynamic_shape.assign(node->shape().begin(), node->shape().end());
         }
     };
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<BasicIndexingNodeData>(*this);
+    }
+
     std::vector<Update> diff;
     // Used to track diffs for dynamic size
     ssize_t previous_size;
 
-    // The state dependent shape when indexing a dynamic array. Will be nullptr when
+    // The state dependent shape when indexing a dynamic array. Will be empty when
     // predecessor array is fixed shape.
-    std::unique_ptr<ssize_t[]> dynamic_shape = nullptr;
+    std::vector<ssize_t> dynamic_shape;
 
     Slice fitted_first_slice;
 
@@ -1573,7 +1584,7 @@ void BasicIndexingNode::revert(State& state) const {
 ssize_t BasicIndexingNode::size(const State& state) const {
     if (size_ >= 0) return size_;
 
-    return Array::shape_to_size(ndim_, data_ptr<BasicIndexingNodeData>(state)->dynamic_shape.get());
+    return Array::shape_to_size(ndim_, data_ptr<BasicIndexingNodeData>(state)->dynamic_shape.data());
 }
 
 SizeInfo BasicIndexingNode::sizeinfo() const {
@@ -1644,7 +1655,7 @@ ssize_t BasicIndexingNode::size_diff(const State& state) const {
 std::span<const ssize_t> BasicIndexingNode::shape(const State& state) const {
     if (size_ >= 0) return BasicIndexingNode::shape();
 
-    return std::span<const ssize_t>(data_ptr<BasicIndexingNodeData>(state)->dynamic_shape.get(),
+    return std::span<const ssize_t>(data_ptr<BasicIndexingNodeData>(state)->dynamic_shape.data(),
                                     ndim_);
 }
 
diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index 7c3413a..b20513d 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -222,6 +222,9 @@ void ReshapeNode::revert(State& state) const {}  // stateless node
 class SizeNodeData : public ScalarNodeStateData {
  public:
     explicit SizeNodeData(std::integral auto value) : ScalarNodeStateData(value) {}
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<SizeNodeData>(*this);
+    }
     void set(std::integral auto value) { ScalarNodeStateData::set(value); }
 };
 
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 2989fe6..085b524 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -488,6 +488,13 @@ struct NaryOpNodeData : public ArrayNodeStateData {
                             std::vector<Array::const_iterator> iterators)
             : ArrayNodeStateData(std::move(values)), iterators(std::move(iterators)) {}
 
+    // The iterators point into another state's predecessors, so we don't copy them
+    NaryOpNodeData(const NaryOpNodeData& other) : ArrayNodeStateData(other) {}
+
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<NaryOpNodeData>(*this);
+    }
+
     // used to avoid reallocating memory for predecessor iterators every propagation
     std::vector<Array::const_iterator> iterators;
 };
@@ -1164,6 +1171,9 @@ struct ReduceNodeData : NodeStateData {
         values.old = values.value;
         extra.commit();
     }
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<ReduceNodeData>(*this);
+    }
     void revert() {
         values.value = values.old;
         extra.revert();
diff --git a/dwave/optimization/src/nodes/quadratic_model.cpp b/dwave/optimization/src/nodes/quadratic_model.cpp
index 1f9a49b..2cc5b56 100644
--- a/dwave/optimization/src/nodes/quadratic_model.cpp
+++ b/dwave/optimization/src/nodes/quadratic_model.cpp
@@ -30,6 +30,10 @@ struct QuadraticModelNodeData : public NodeStateData {
         effective_changes_.reserve(num_variables);
     }
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<QuadraticModelNodeData>(*this);
+    }
+
     double const* buff() const { return &value.value(); }
 
     std::span<const Update> diff() const {
diff --git a/dwave/optimization/src/nodes/testing.cpp b/dwave/optimization/src/nodes/testing.cpp
index 6d20970..817ae96 100644
--- a/dwave/optimization/src/nodes/testing.cpp
+++ b/dwave/optimization/src/nodes/testing.cpp
@@ -26,6 +26,10 @@ class ArrayValidationNodeData : public dwave::optimization::NodeStateData {
     explicit ArrayValidationNodeData(Array::View data)
             : old_data(data.begin(), data.end()), current_data(data.begin(), data.end()) {}
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<ArrayValidationNodeData>(*this);
+    }
+
     std::vector<double> old_data;
     std::vector<double> current_data;
 };
@@ -217,6 +221,10 @@ class DynamicArrayTestingNodeData : public dwave::optimization::NodeStateData {
         old_shape = current_shape;
     }
 
+    std::unique_ptr<NodeStateData> copy() const override {
+        return std::make_unique<DynamicArrayTestingNodeData>(*this);
+    }
+
     // Add one row to the data
     void grow(std::span<const double> values) {
         // Caller is responsible for mutating the `current_shape` to reflect the size
-- 
2.43.0


From a224f55a384f0177468b36a670e4ec8dde1fef59 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 20:01:22 +0000
Subject: [PATCH 28/30] fix: iterating over symbols read freed memory when the
 model changed meanwhile

---
 dwave/optimization/_model.pyx | 43 ++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index a9c698a..d1d838f 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -24,7 +24,7 @@ import zipfile
 import numpy as np
 
 from cpython cimport Py_buffer
-from cython.operator cimport dereference as deref, preincrement as inc
+from cython.operator cimport dereference as deref
 from cython.operator cimport typeid
 from libcpp cimport bool
 from libcpp.utility cimport move
@@ -382,8 +382,10 @@ cdef class _Graph:
             <dwave.optimization.symbols.LessEqual at ...>
             >>> constraints = next(model.iter_constraints())
         """
-        for ptr in self._graph.constraints():
-            yield symbol_from_ptr(self, ptr)
+        # Constraints might be added between iterations, so we always use the current ones
+        cdef Py_ssize_t i
+        for i in range(self.num_constraints()):
+            yield symbol_from_ptr(self, self._graph.constraints()[i])
 
     def iter_decisions(self):
         """Iterate over all decision variables in the model.
@@ -399,8 +401,10 @@ cdef class _Graph:
             <dwave.optimization.symbols.LessEqual at ...>
             >>> decisions = next(model.iter_decisions())
         """
-        for ptr in self._graph.decisions():
-            yield symbol_from_ptr(self, ptr)
+        # Decisions might be added between iterations, so we always use the current ones
+        cdef Py_ssize_t i
+        for i in range(self.num_decisions()):
+            yield symbol_from_ptr(self, self._graph.decisions()[i])
 
     def iter_symbols(self):
         """Iterate over all symbols in the model.
@@ -416,9 +420,12 @@ cdef class _Graph:
         """
         # Because nodes() is a span of unique_ptr, we can't just iterate over
         # it cythonically. Cython would try to do a copy/move assignment.
-        nodes = self._graph.nodes()
-        for i in range(nodes.size()):
-            yield symbol_from_ptr(self, nodes[i].get())
+        # Symbols might be added or removed between iterations, so we always use the current ones.
+        cdef Py_ssize_t i
+        for i in range(self.num_nodes()):
+            if i >= self.num_nodes():
+                return
+            yield symbol_from_ptr(self, self._graph.nodes()[i].get())
 
     def lock(self):
         """Lock the model.
@@ -860,11 +867,10 @@ cdef class Symbol:
             >>> a.equals(next(b.iter_predecessors()))
             True
         """
-        cdef vector[cppNode*].const_iterator it = self.node_ptr.predecessors().begin()
-        cdef vector[cppNode*].const_iterator end = self.node_ptr.predecessors().end()
-        while it != end:
-            yield symbol_from_ptr(self.model, deref(it))
-            inc(it)
+        # Predecessors might be added between iterations, so we always use the current ones
+        cdef Py_ssize_t i
+        for i in range(<Py_ssize_t>(self.node_ptr.predecessors().size())):
+            yield symbol_from_ptr(self.model, self.node_ptr.predecessors()[i])
 
     def iter_successors(self):
         """Iterate over a symbol's successors in the model.
@@ -882,11 +888,12 @@ cdef class Symbol:
             >>> lsymbol_lists[0].equals(next(lsymbol.iter_successors()))
             True
         """
-        cdef vector[cppNode.SuccessorView].const_iterator it = self.node_ptr.successors().begin()
-        cdef vector[cppNode.SuccessorView].const_iterator end = self.node_ptr.successors().end()
-        while it != end:
-            yield symbol_from_ptr(self.model, deref(it).ptr)
-            inc(it)
+        # Successors might be added or removed between iterations, so we always use the current ones
+        cdef Py_ssize_t i
+        for i in range(<Py_ssize_t>(self.node_ptr.successors().size())):
+            if i >= <Py_ssize_t>(self.node_ptr.successors().size()):
+                return
+            yield symbol_from_ptr(self.model, self.node_ptr.successors()[i].ptr)
 
     def maybe_equals(self, other):
         """Compare to another symbol.
-- 
2.43.0


From 8cd40ede961850e36b7e45f25618fe1a683ef652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:54 +0000
Subject: [PATCH 29/30] fix: let no other thread run between unlocking a model
 and resetting its states

---
 dwave/optimization/_model.pyx |  6 +++++-
 dwave/optimization/model.py   | 10 ----------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index d1d838f..77510ce 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -658,10 +658,14 @@ cdef class _Graph:
         self._lock_count -= 1
 
         # if we're now unlocked, then reset the topological sort and the
-        # non-decision states
+        # non-decision states. There is no point in between at which another thread
+        # can run and, for instance, add a symbol.
         if self._lock_count < 1:
             self._graph.reset_topological_sort()
 
+            if hasattr(self, "states"):
+                self.states._reset_intermediate_states()
+
 
 cdef class Symbol:
     """Base class for symbols.
diff --git a/dwave/optimization/model.py b/dwave/optimization/model.py
index 346197d..75812ea 100644
--- a/dwave/optimization/model.py
+++ b/dwave/optimization/model.py
@@ -487,13 +487,3 @@ class Model(_Graph):
             G.add_edge(repr(symbol), "constraint(s)")
 
         return G
-
-    def unlock(self):
-        # inherit the docstring from _Graph
-        if not self.is_locked():
-            return
-
-        super().unlock()
-
-        if not self.is_locked():
-            self.states._reset_intermediate_states()
-- 
2.43.0


From 32670411e45a9e07811a41c68f5b426d89e79c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:09 +0000
Subject: [PATCH 30/30] fix: count a quadratic model's interactions without
 copying it (running out of memory there while saving ended the process)

---
 dwave/optimization/src/nodes/quadratic_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/quadratic_model.cpp b/dwave/optimization/src/nodes/quadratic_model.cpp
index 2cc5b56..71eb2d1 100644
--- a/dwave/optimization/src/nodes/quadratic_model.cpp
+++ b/dwave/optimization/src/nodes/quadratic_model.cpp
@@ -85,7 +85,7 @@ ssize_t QuadraticModel::num_variables() const noexcept { return num_variables_;
 
 ssize_t QuadraticModel::num_interactions() const noexcept {
     ssize_t num_interactions = 0;
-    for (auto n : adj_) {
+    for (const auto& n : adj_) {
         num_interactions += n.num_smaller_neighbors;
     }
     return num_interactions;
-- 
2.43.0

