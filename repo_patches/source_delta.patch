From ce52c8af8b27c6d044887d29e4c64a8d90d49df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:12 +0000
Subject: [PATCH 01/20] fix: apply_permutation_to_possibly_invalid_elements_of
 must skip invalid ids

It forwarded to the variant that indexes the permutation with every element,
which reads out of bounds at invalid_id.
---
 include/routingkit/permutation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/permutation.h b/include/routingkit/permutation.h
index 4863817..f476f8c 100644
--- a/include/routingkit/permutation.h
+++ b/include/routingkit/permutation.h
@@ -128,7 +128,7 @@ std::vector<unsigned> apply_permutation_to_possibly_invalid_elements_of(const st
 	assert(std::all_of(v.begin(), v.end(), [&](unsigned x){return x < p.size() || x == invalid_id;}) && "v has an out of bounds element");
 	
 	std::vector<unsigned> r = v;
-	inplace_apply_permutation_to_elements_of(p, r);
+	inplace_apply_permutation_to_possibly_invalid_elements_of(p, r);
 	return r; // NVRO
 }
 
-- 
2.43.0


From a3d9a45d796b76c1537dea9d6e6e7451ff4c2218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:12 +0000
Subject: [PATCH 02/20] fix: convert_arc_path_to_node_path left the first arc
 id in place of the second node

---
 src/graph_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_util.cpp b/src/graph_util.cpp
index fda7e37..c98d9f7 100644
--- a/src/graph_util.cpp
+++ b/src/graph_util.cpp
@@ -69,7 +69,7 @@ std::vector<unsigned>convert_node_path_to_arc_path(const std::vector<unsigned>&f
 std::vector<unsigned>convert_arc_path_to_node_path(unsigned source, const std::vector<unsigned>&head, std::vector<unsigned>path){
 	if(!path.empty()){
 		path.resize(path.size()+1);
-		for(unsigned i=path.size()-1; i>1; --i)
+		for(unsigned i=path.size()-1; i>0; --i)
 			path[i] = head[path[i-1]];
 		path[0] = source;
 	}
-- 
2.43.0


From d246a9d6598397d885ce683c1902266cc96e7406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:12 +0000
Subject: [PATCH 03/20] fix: lexicographic sort permutations asserted that
 their untouched input is sorted

a is const and is never modified by these variants, the assertion fired on
every unsorted input of a debug build.
---
 src/graph_util.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/graph_util.cpp b/src/graph_util.cpp
index c98d9f7..542bec4 100644
--- a/src/graph_util.cpp
+++ b/src/graph_util.cpp
@@ -86,8 +86,7 @@ std::vector<unsigned>compute_inverse_sort_permutation_first_by_left_then_by_righ
 	const std::vector<unsigned>&b
 ){
 	auto p = compute_inverse_stable_sort_permutation_using_key(b, b_count, [](unsigned x){return x;});
-	auto q = compute_inverse_stable_sort_permutation_using_key(apply_inverse_permutation(p, std::move(a)), a_count, [](unsigned x){return x;});
-	assert(is_sorted_using_less(a));
+	auto q = compute_inverse_stable_sort_permutation_using_key(apply_inverse_permutation(p, a), a_count, [](unsigned x){return x;});
 	return chain_permutation_first_left_then_right(q, p);
 }
 
@@ -98,8 +97,7 @@ std::vector<unsigned>compute_sort_permutation_first_by_left_then_by_right(
 	const std::vector<unsigned>&b
 ){
 	auto p = compute_stable_sort_permutation_using_key(b, b_count, [](unsigned x){return x;});
-	auto q = compute_stable_sort_permutation_using_key(apply_permutation(p, std::move(a)), a_count, [](unsigned x){return x;});
-	assert(is_sorted_using_less(a));
+	auto q = compute_stable_sort_permutation_using_key(apply_permutation(p, a), a_count, [](unsigned x){return x;});
 	return chain_permutation_first_left_then_right(p, q);
 }
 
-- 
2.43.0


From fe0f80737dedee5d680956657e3d4d4c5d5863fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:12 +0000
Subject: [PATCH 04/20] fix: reject varints that do not fit into 64 bit

A tenth byte 0x81 was accepted as continuation, so that the next shift was 70
(undefined), and the high bits of a terminating tenth byte were dropped
silently.
---
 src/protobuf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protobuf.cpp b/src/protobuf.cpp
index d14f799..e309d0f 100644
--- a/src/protobuf.cpp
+++ b/src/protobuf.cpp
@@ -13,7 +13,7 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 	uint8_t mask = ~high_bit;
 
 	while((*begin & high_bit) != 0){
-		if(shift == 7*9 && ((uint8_t)*begin) != (1|high_bit))
+		if(shift == 7*9)
 			throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 		n |= ((uint64_t)(((uint8_t)*begin) & mask))<<shift;
 		shift += 7;
@@ -21,6 +21,8 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 		if(begin == end)
 			throw std::runtime_error("Protobuf message is corrupt because varint was not terminated before the end of the message.");
 	}
+	if(shift == 7*9 && ((uint8_t)*begin) > 1)
+		throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 	n |= ((uint64_t)(((uint8_t)*begin) & mask)) << shift;
 	++begin;
 
-- 
2.43.0


From 7b1fc9d20a870d271953f0f39ffa527a1adc198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:12 +0000
Subject: [PATCH 05/20] fix: bit vectors whose size is a multiple of 512 or
 zero

The padding mask of a full last block was empty, so are_all_set() ignored the
last block and resize(n, true) from or to a multiple of 512 set old bits or
lost new ones. A copy of an empty vector has a non-null buffer; resizing it
with value true wrote in front of the buffer. Resizing a full last block to
its own size accessed the block after it.
---
 src/bit_vector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index 3d7d888..b1cecf7 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -115,6 +115,9 @@ namespace {
 	v8_uint64_t get_padding_mask(uint64_t size){
 		v8_uint64_t u = {0};
 
+		if(size != 0 && size % 512 == 0)
+			return ~u; // the last block is full, there is no padding
+
 		uint64_t x = size % 512;
 		uint8_t i = 0;
 		while(x >= 64){
@@ -310,14 +313,14 @@ void BitVector::resize(uint64_t new_size, BitVector::Uninitialized){
 }
 
 void BitVector::resize(uint64_t new_size, bool value){
-	if(data_ == nullptr){
+	if(size_ == 0){
 		*this = BitVector(new_size, value);
 	}else{
 		assert(are_all_padding_bits_zero(*this));
 		if(new_size < size_) {
 			resize(new_size, uninitialized);
 		} else if(get_uint8_count(new_size) == get_uint8_count(size_)){
-			if(value == false){
+			if(value == false || new_size == size_){
 				size_ = new_size;
 			} else {
 				((v8_uint64_t*)data_)[size_/512] |= get_padding_mask(new_size) & ~get_padding_mask(size_);
-- 
2.43.0


From 912191fc7844529a2959091ead14aa3f78d839e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:12 +0000
Subject: [PATCH 06/20] fix: tag maps with more than 65536 entries

The entry index was stored in 16 bits next to the hash, larger maps lost or
mixed up entries and could access the hash table out of bounds.
---
 include/routingkit/tag_map.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/routingkit/tag_map.h b/include/routingkit/tag_map.h
index 2de6a27..b410116 100644
--- a/include/routingkit/tag_map.h
+++ b/include/routingkit/tag_map.h
@@ -7,6 +7,7 @@
 
 #include <vector>
 #include <string.h>
+#include <stdint.h>
 
 namespace RoutingKit{
 
@@ -52,8 +53,8 @@ public:
 
 	void clear(){
 		for(auto x:hash_element_list){
-			entry_begin[x>>16] = 0;
-			entry_end[x>>16] = 0;
+			entry_begin[x>>32] = 0;
+			entry_end[x>>32] = 0;
 		}
 	}
 
@@ -64,15 +65,15 @@ public:
 
 		hash_element_list.resize(key_value_count);
 		for(unsigned i=0; i<key_value_count; ++i)
-			hash_element_list[i] = (compute_hash(get_key(i))<<16) | i;
+			hash_element_list[i] = (static_cast<uint64_t>(compute_hash(get_key(i)))<<32) | i;
 		
 		std::sort(hash_element_list.begin(), hash_element_list.end());
 
 		entry.resize(key_value_count);
 		unsigned prev_hash = hash_count;
 		for(unsigned i=0; i<key_value_count; ++i){
-			unsigned hash = hash_element_list[i] >> 16;
-			unsigned j = hash_element_list[i] & 0xFFFFu;
+			unsigned hash = hash_element_list[i] >> 32;
+			unsigned j = hash_element_list[i] & 0xFFFFFFFFu;
 			entry[i].key = get_key(j);
 			entry[i].value = get_value(j);
 
@@ -116,7 +117,7 @@ public:
 	}
 
 private:
-	std::vector<unsigned>hash_element_list;
+	std::vector<uint64_t>hash_element_list;
 	std::vector<Entry>entry;
 	std::vector<unsigned>entry_begin, entry_end;
 };
-- 
2.43.0


From 1db6525842d1475b494b4c220fd06b1fa0316666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:19 +0000
Subject: [PATCH 07/20] fix: vector filters moved elements onto themselves

inplace_keep_element_of_vector_if and inplace_remove_element_from_vector_if
move-assigned an element to itself as long as no element had been dropped.
Self-move leaves the elements of many types, for example std::string and
std::vector, empty.
---
 include/routingkit/filter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/routingkit/filter.h b/include/routingkit/filter.h
index 78990d3..aa06c67 100644
--- a/include/routingkit/filter.h
+++ b/include/routingkit/filter.h
@@ -16,7 +16,8 @@ void inplace_keep_element_of_vector_if(const BitVector&keep_filter, std::vector<
 	uint64_t in = 0, out = 0, s = vec.size();
 	while(in != s){
 		if(keep_filter.is_set(in)){
-			vec[out] = std::move(vec[in]);
+			if(in != out)
+				vec[out] = std::move(vec[in]);
 			++out;
 		}
 		++in;
@@ -31,7 +32,8 @@ void inplace_remove_element_from_vector_if(const BitVector&remove_filter, std::v
 	uint64_t in = 0, out = 0, s = vec.size();
 	while(in != s){
 		if(!remove_filter.is_set(in)){
-			vec[out] = std::move(vec[in]);
+			if(in != out)
+				vec[out] = std::move(vec[in]);
 			++out;
 		}
 		++in;
-- 
2.43.0


From c6fb563f59c41e2943f29da97d68379f97c6fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:08 +0000
Subject: [PATCH 08/20] fix: Dijkstra::reset decides by the allocated node
 count whether it can reuse its buffers

reset(first_out, tail, head) compared the size of the new first_out with the
size of the previously attached one. If the same vector objects are refilled
with another graph, or the old vector is gone, the buffers kept the old node
count and were accessed out of bounds.
---
 include/routingkit/dijkstra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/dijkstra.h b/include/routingkit/dijkstra.h
index 6a3d3e3..585f969 100644
--- a/include/routingkit/dijkstra.h
+++ b/include/routingkit/dijkstra.h
@@ -40,7 +40,7 @@ public:
 		assert(first_out.back() == tail.size());
 		assert(first_out.back() == head.size());
 
-		if(this->first_out != nullptr && first_out.size() == this->first_out->size()){
+		if(this->first_out != nullptr && first_out.size()-1 == tentative_distance.size()){
 			this->first_out = &first_out;
 			this->head = &head;
 			this->tail = &tail;
-- 
2.43.0


From 547fc10a40a12c2c01466eb9b149ccd23a52e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:08 +0000
Subject: [PATCH 09/20] fix: decomposing an empty graph fragment into
 components read out of bounds

---
 src/nested_dissection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nested_dissection.cpp b/src/nested_dissection.cpp
index 7907c87..a533a14 100644
--- a/src/nested_dissection.cpp
+++ b/src/nested_dissection.cpp
@@ -615,6 +615,9 @@ std::vector<GraphFragment>decompose_graph_fragment_into_connected_components(Gra
 	unsigned node_count = fragment.node_count();
 	unsigned arc_count = fragment.arc_count();
 
+	if(node_count == 0)
+		return {};
+
 	unsigned component_count = 0;
 	std::vector<unsigned>component(node_count, invalid_id);
 	{
-- 
2.43.0


From 3f4dfe5e50fabea6589051bf74591f1673cb8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:35 +0000
Subject: [PATCH 10/20] fix: CCH metrics of graphs without arcs failed a debug
 assertion

The weight vector of a graph without arcs is empty and its data pointer may be
null. Also take the data pointer of possibly empty vectors using data().
---
 src/customizable_contraction_hierarchy.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 04f29a3..baf94e3 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -733,7 +733,7 @@ namespace{
 }
 
 CustomizableContractionHierarchyMetric::CustomizableContractionHierarchyMetric(const CustomizableContractionHierarchy&cch, const std::vector<unsigned>&input_weight):
-	forward(cch.cch_arc_count()), backward(cch.cch_arc_count()), cch(&cch), input_weight(&input_weight[0]){
+	forward(cch.cch_arc_count()), backward(cch.cch_arc_count()), cch(&cch), input_weight(input_weight.data()){
 }
 
 CustomizableContractionHierarchyMetric::CustomizableContractionHierarchyMetric(const CustomizableContractionHierarchy&cch, const unsigned*input_weight):
@@ -742,19 +742,19 @@ CustomizableContractionHierarchyMetric::CustomizableContractionHierarchyMetric(c
 
 CustomizableContractionHierarchyMetric& CustomizableContractionHierarchyMetric::reset(const CustomizableContractionHierarchy&cch, const std::vector<unsigned>&input_weight){
 	assert(input_weight.size() == cch.input_arc_count() && "Input weight vector has the wrong size");
-	reset(cch, &input_weight[0]);
+	reset(cch, input_weight.data());
 	return *this;
 }
 
 CustomizableContractionHierarchyMetric& CustomizableContractionHierarchyMetric::reset(const std::vector<unsigned>&input_weight){
 	assert(cch && "Need to be attached to a CCH");
 	assert(input_weight.size() == cch->input_arc_count() && "Input weight vector has the wrong size");
-	reset(&input_weight[0]);
+	reset(input_weight.data());
 	return *this;
 }
 
 CustomizableContractionHierarchyMetric& CustomizableContractionHierarchyMetric::reset(const CustomizableContractionHierarchy&cch_, const unsigned*input_weight_){
-	assert(input_weight_ != nullptr && "Input weight pointer must not be null");
+	assert((input_weight_ != nullptr || cch_.input_arc_count() == 0) && "Input weight pointer must not be null");
 	if(cch_.cch_arc_count() != forward.size()){
 		*this = CustomizableContractionHierarchyMetric(cch_, input_weight_);
 	}else{
@@ -765,13 +765,13 @@ CustomizableContractionHierarchyMetric& CustomizableContractionHierarchyMetric::
 }
 
 CustomizableContractionHierarchyMetric& CustomizableContractionHierarchyMetric::reset(const unsigned*input_weight_){
-	assert(input_weight_ != nullptr && "Input weight pointer must not be null");
+	assert((input_weight_ != nullptr || cch->input_arc_count() == 0) && "Input weight pointer must not be null");
 	input_weight = input_weight_;
 	return *this;
 }
 
 CustomizableContractionHierarchyMetric& CustomizableContractionHierarchyMetric::customize(){
-	assert(input_weight != nullptr && "Metric must be connected to a weight vector");
+	assert((input_weight != nullptr || cch->input_arc_count() == 0) && "Metric must be connected to a weight vector");
 
 	extract_initial_metric(*cch, *this);
 
@@ -908,7 +908,7 @@ CustomizableContractionHierarchyParallelization& CustomizableContractionHierarch
 CustomizableContractionHierarchyParallelization& CustomizableContractionHierarchyParallelization::customize(CustomizableContractionHierarchyMetric&metric, unsigned thread_count) {
 	assert(cch == metric.cch);
 	assert(thread_count != 0);
-	assert(metric.input_weight != nullptr && "Metric must be connected to a weight vector");
+	assert((metric.input_weight != nullptr || cch->input_arc_count() == 0) && "Metric must be connected to a weight vector");
 
 	if(thread_count == 1){
 		metric.customize();
@@ -973,7 +973,7 @@ CustomizableContractionHierarchyPartialCustomization&CustomizableContractionHier
 
 CustomizableContractionHierarchyPartialCustomization&CustomizableContractionHierarchyPartialCustomization::customize(CustomizableContractionHierarchyMetric&metric){
 	assert(cch == metric.cch);
-	assert(metric.input_weight != nullptr && "Metric must be connected to a weight vector");
+	assert((metric.input_weight != nullptr || cch->input_arc_count() == 0) && "Metric must be connected to a weight vector");
 
 	while(!q.empty()){
 		unsigned xy = q.pop();
@@ -1706,7 +1706,7 @@ CustomizableContractionHierarchyQuery& CustomizableContractionHierarchyQuery::ge
 std::vector<unsigned> CustomizableContractionHierarchyQuery::get_distances_to_targets(){
 	assert(state == query_state_target_run);
 	std::vector<unsigned>v(target_node.size());
-	get_distances_to_targets(&v[0]);
+	get_distances_to_targets(v.data());
 	return v;
 }
 
@@ -1720,7 +1720,7 @@ CustomizableContractionHierarchyQuery& CustomizableContractionHierarchyQuery::ge
 std::vector<unsigned> CustomizableContractionHierarchyQuery::get_distances_to_sources(){
 	assert(state == query_state_source_run);
 	std::vector<unsigned>v(source_node.size());
-	get_distances_to_sources(&v[0]);
+	get_distances_to_sources(v.data());
 	return v;
 }
 
-- 
2.43.0


From 5a20a8ba9baf01ac4f262a4c213caa59d96019ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:35 +0000
Subject: [PATCH 11/20] fix: building the CCH of a graph without nodes divided
 by zero

---
 src/customizable_contraction_hierarchy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index baf94e3..0ae8fac 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -396,7 +396,7 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 		}
 
 		#ifndef NDEBUG
-		for(unsigned x=0; x<node_count-1; ++x){
+		for(unsigned x=0; x+1<node_count; ++x){
 			if(elimination_tree_parent[x] != invalid_id){
 				assert(x < elimination_tree_parent[x]);
 				for(unsigned xy=up_first_out[x]; xy<up_first_out[x+1]; ++xy){
@@ -416,7 +416,7 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 		log_message("Finished computing elimination tree, needed "+std::to_string(timer)+"musec");
 	}
 
-	if(log_message){
+	if(log_message && node_count != 0){
 		std::vector<unsigned>
 			nodes_in_search_space(node_count, 0),
 			arcs_in_search_space(node_count, 0);
-- 
2.43.0


From 0ea69cd14acb52b9e172956cff9eddeba4f4cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:35 +0000
Subject: [PATCH 12/20] fix: building a CCH called an empty log function

---
 src/customizable_contraction_hierarchy.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 0ae8fac..c1e397b 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -449,9 +449,10 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 	}
 
 	// filter up graph
-	if(!filter_always_inf_arcs)
-		log_message("Not filtering upward arcs");
-	else
+	if(!filter_always_inf_arcs){
+		if(log_message)
+			log_message("Not filtering upward arcs");
+	}else
 	{
 		if(log_message){
 			log_message("Start filtering upward arcs");
-- 
2.43.0


From dd19947943e1ac5982dad9eb5615472d2940ac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:46 +0000
Subject: [PATCH 13/20] fix: default constructed CCH queries compared an
 uninitialized CCH pointer

reset(metric) reuses the buffers if the query is already attached to the CCH of
the metric. A default constructed query object had an uninitialized pointer. If
its memory held a query to the same CCH before (a local variable in a loop for
example), it was considered attached and its empty buffers were accessed.
---
 include/routingkit/customizable_contraction_hierarchy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index 942d91c..75d3e48 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -123,7 +123,7 @@ struct CustomizableContractionHierarchyPartialCustomization{
 };
 
 struct CustomizableContractionHierarchyQuery{
-	CustomizableContractionHierarchyQuery(){}
+	CustomizableContractionHierarchyQuery():cch(nullptr){}
 	explicit CustomizableContractionHierarchyQuery(const CustomizableContractionHierarchyMetric&metric);
 
 	CustomizableContractionHierarchyQuery&reset();
-- 
2.43.0


From 7ead21511be5b9d8a7b9830395f3c7e2496e651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:41 +0000
Subject: [PATCH 14/20] fix: default constructed IDSetMinQueue was
 uninitialized

CustomizableContractionHierarchyPartialCustomization::reset uses id_count() to
decide whether the queue can be reused. The default constructed queue had an
indeterminate id count and could be considered large enough, or be non-empty.
---
 include/routingkit/id_set_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/id_set_queue.h b/include/routingkit/id_set_queue.h
index fc285aa..62109bc 100644
--- a/include/routingkit/id_set_queue.h
+++ b/include/routingkit/id_set_queue.h
@@ -105,7 +105,7 @@ private:
 	}
 
 public:
-	IDSetMinQueue(){}
+	IDSetMinQueue():IDSetMinQueue(0){}
 
 	//! The queue may contain IDs from 0 to n-1.
 	explicit IDSetMinQueue(unsigned n):
-- 
2.43.0


From 5c7877e593e1ff0cb48ee0b4f9d6bfdfdbc18d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:41 +0000
Subject: [PATCH 15/20] fix: perfect witness search failed for CCHs with
 filtered arcs

If the CCH was constructed with filter_always_inf_arcs, the witness search can
find a witness for one part of a shortcut without finding one for the shortcut
itself. The shortcut was kept, but could not be unpacked. The function then
threw an exception or, if assertions are enabled, aborted. Remove such
shortcuts. They are longer than the shortest path between their end points.
---
 src/customizable_contraction_hierarchy.cpp | 37 ++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index c1e397b..dbf2c91 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -1772,6 +1772,16 @@ ContractionHierarchy CustomizableContractionHierarchyMetric::build_contraction_h
 	}
 
 	#ifndef NDEBUG
+	// The weights are only guaranteed to be perfect if no arcs were filtered during the CCH construction
+	bool is_chordal = true;
+	for(unsigned a=0; a<cch->cch_arc_count(); ++a){
+		unsigned triangle_count = 0;
+		forall_upper_triangles_of_arc(*cch, a, [&](unsigned, unsigned, unsigned, unsigned, unsigned, unsigned){ ++triangle_count; return true; });
+		if(triangle_count != cch->up_first_out[cch->up_tail[a]+1] - (a+1))
+			is_chordal = false;
+	}
+
+	if(is_chordal)
 	for(unsigned a=0; a<cch->cch_arc_count(); ++a)
 		forall_upper_triangles_of_arc(
 			*cch, a,
@@ -1797,6 +1807,33 @@ ContractionHierarchy CustomizableContractionHierarchyMetric::build_contraction_h
 		);
 	#endif
 
+	// If arcs were filtered during the CCH construction, then a witness of a shortcut can be missed, even though a
+	// witness of one of its two parts was found. Such a shortcut is not part of any shortest path and can not be unpacked.
+	for(unsigned cch_arc=0; cch_arc<cch->cch_arc_count(); ++cch_arc){
+		if(keep_forward_arc.is_set(cch_arc) && unpack_original_forward_arc(*cch, *this, cch_arc) == invalid_id){
+			if(
+				forall_lower_triangles_of_arc(
+					*cch, cch_arc,
+					[&](unsigned bottom_arc, unsigned mid_arc, unsigned top_arc, unsigned, unsigned, unsigned){
+						return !(keep_backward_arc.is_set(bottom_arc) && keep_forward_arc.is_set(mid_arc) && backward[bottom_arc] + forward[mid_arc] == forward[top_arc]);
+					}
+				)
+			)
+				keep_forward_arc.reset(cch_arc);
+		}
+		if(keep_backward_arc.is_set(cch_arc) && unpack_original_backward_arc(*cch, *this, cch_arc) == invalid_id){
+			if(
+				forall_lower_triangles_of_arc(
+					*cch, cch_arc,
+					[&](unsigned bottom_arc, unsigned mid_arc, unsigned top_arc, unsigned, unsigned, unsigned){
+						return !(keep_backward_arc.is_set(mid_arc) && keep_forward_arc.is_set(bottom_arc) && backward[mid_arc] + forward[bottom_arc] == backward[top_arc]);
+					}
+				)
+			)
+				keep_backward_arc.reset(cch_arc);
+		}
+	}
+
 	ContractionHierarchy ch;
 
 	ch.rank = cch->rank;
-- 
2.43.0


From 4cc5b95fce07f6ed1b2f67a4f55aa64395aef168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:51 +0000
Subject: [PATCH 16/20] fix: building a CH of a graph without arcs failed a
 debug assertion

---
 src/contraction_hierarchy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 794c7c6..fbe0951 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1096,8 +1096,8 @@ ContractionHierarchy ContractionHierarchy::build(
 ){
 	assert(tail.size() == head.size());
 	assert(tail.size() == weight.size());
-	assert(max_element_of(tail) < node_count);
-	assert(max_element_of(head) < node_count);
+	assert(tail.empty() || max_element_of(tail) < node_count);
+	assert(head.empty() || max_element_of(head) < node_count);
 
 
 	ContractionHierarchy ch;
@@ -1143,8 +1143,8 @@ ContractionHierarchy ContractionHierarchy::build_given_rank(
 
 	assert(tail.size() == head.size());
 	assert(tail.size() == weight.size());
-	assert(max_element_of(tail) < node_count);
-	assert(max_element_of(head) < node_count);
+	assert(tail.empty() || max_element_of(tail) < node_count);
+	assert(head.empty() || max_element_of(head) < node_count);
 
 
 
-- 
2.43.0


From 8b34d28da1c9a99ca79910369d0c30d1ddc15a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:51 +0000
Subject: [PATCH 17/20] fix: building a CH of a graph without nodes read out of
 bounds

The maximum degree of a graph without nodes was taken from an empty vector.
---
 src/contraction_hierarchy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index fbe0951..bbffac0 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1071,11 +1071,11 @@ namespace {
 			std::vector<unsigned>deg(node_count, 0);
 			for(unsigned i=0; i<tail.size(); ++i)
 				++deg[tail[i]];
-			unsigned max_out_degree = max_element_of(deg);
+			unsigned max_out_degree = max_element_of(deg, 0u);
 			std::fill(deg.begin(), deg.end(), 0);
 			for(unsigned i=0; i<tail.size(); ++i)
 				++deg[head[i]];
-			unsigned max_in_degree = max_element_of(deg);
+			unsigned max_in_degree = max_element_of(deg, 0u);
 			log_message("The input's maximum in-degree is "+std::to_string(max_in_degree)+" and its maximum out-degree is "+std::to_string(max_out_degree)+".");
 
 		}
-- 
2.43.0


From a88461a20d79362dad61db255068489c4aac863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:51 +0000
Subject: [PATCH 18/20] fix: resetting a default constructed CH query to a CH
 without nodes failed a debug assertion

---
 src/contraction_hierarchy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index bbffac0..ca08072 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1451,8 +1451,8 @@ ContractionHierarchyQuery&ContractionHierarchyQuery::reset(){
 
 ContractionHierarchyQuery&ContractionHierarchyQuery::reset(const ContractionHierarchy&new_ch){
 	if(forward_tentative_distance.size() == new_ch.node_count()){
-		reset();
 		ch = &new_ch;
+		reset();
 	} else {
 		*this = ContractionHierarchyQuery(new_ch);
 	}
-- 
2.43.0


From f198270077695d51a12330a1fc32c3718b01940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:24 +0000
Subject: [PATCH 19/20] fix: pinning more CH query nodes than the graph has
 wrote out of bounds

---
 src/contraction_hierarchy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index ca08072..76ae552 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1870,6 +1870,8 @@ namespace{
 		const std::vector<unsigned>&backward_weight
 	){
 		target_count = external_target_list.size();
+		if(target_list.size() < target_count)
+			target_list.resize(target_count);
 
 		for(unsigned i=0; i<target_count; ++i){
 			unsigned t = external_target_list[i];
-- 
2.43.0


From 490b61a2b49707726100a4086e5a1b0da08a96cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:25 +0000
Subject: [PATCH 20/20] fix: copies of a CustomizableContractionHierarchy used
 the bit vectors of the original

The LocalIDMappers of a copied CustomizableContractionHierarchy referred to the
memory of the bit vectors of the object it was copied from. Building a metric for
the copy read freed memory once the original was gone.
---
 .../customizable_contraction_hierarchy.h      |  7 +++++
 src/customizable_contraction_hierarchy.cpp    | 27 +++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index 75d3e48..98f7b87 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -19,6 +19,13 @@ struct CustomizableContractionHierarchy{
 
 	CustomizableContractionHierarchy(std::vector<unsigned>order, std::vector<unsigned>tail, std::vector<unsigned>head, std::function<void(const std::string&)>log_message = [](const std::string&){}, bool filter_always_inf_arcs = false);
 
+	// The mappers refer to the bit vectors of the object that they are part of. A copy therefore needs mappers of its own.
+	// A moved bit vector keeps its memory and thus the moved mappers remain valid.
+	CustomizableContractionHierarchy(const CustomizableContractionHierarchy&);
+	CustomizableContractionHierarchy(CustomizableContractionHierarchy&&) = default;
+	CustomizableContractionHierarchy&operator=(const CustomizableContractionHierarchy&);
+	CustomizableContractionHierarchy&operator=(CustomizableContractionHierarchy&&) = default;
+
 	unsigned node_count()const{
 		return rank.size();
 	}
diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index dbf2c91..9140f07 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -193,6 +193,33 @@ namespace{
 	#endif
 }
 
+CustomizableContractionHierarchy::CustomizableContractionHierarchy(const CustomizableContractionHierarchy&o):
+	order(o.order),
+	rank(o.rank),
+	elimination_tree_parent(o.elimination_tree_parent),
+	up_first_out(o.up_first_out),
+	up_head(o.up_head),
+	up_tail(o.up_tail),
+	down_first_out(o.down_first_out),
+	down_head(o.down_head),
+	down_to_up(o.down_to_up),
+	input_arc_to_cch_arc(o.input_arc_to_cch_arc),
+	is_input_arc_upward(o.is_input_arc_upward),
+	does_cch_arc_have_input_arc(o.does_cch_arc_have_input_arc),
+	does_cch_arc_have_input_arc_mapper(does_cch_arc_have_input_arc),
+	forward_input_arc_of_cch(o.forward_input_arc_of_cch),
+	backward_input_arc_of_cch(o.backward_input_arc_of_cch),
+	does_cch_arc_have_extra_input_arc(o.does_cch_arc_have_extra_input_arc),
+	does_cch_arc_have_extra_input_arc_mapper(does_cch_arc_have_extra_input_arc),
+	first_extra_forward_input_arc_of_cch(o.first_extra_forward_input_arc_of_cch),
+	first_extra_backward_input_arc_of_cch(o.first_extra_backward_input_arc_of_cch),
+	extra_forward_input_arc_of_cch(o.extra_forward_input_arc_of_cch),
+	extra_backward_input_arc_of_cch(o.extra_backward_input_arc_of_cch){}
+
+CustomizableContractionHierarchy&CustomizableContractionHierarchy::operator=(const CustomizableContractionHierarchy&o){
+	return *this = CustomizableContractionHierarchy(o);
+}
+
 CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 	std::vector<unsigned>arg_order,
 	std::vector<unsigned>input_tail,
-- 
2.43.0

