#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script so that the table stays reviewable)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "observe_at": list(observe), "hook_needed": None}})
H = 'include/routingkit/'; S = 'src/'
p("C01", "Dijkstra computes exact shortest distances and shortest paths",
  "For every graph, every non-negative weight function whose path lengths stay below the infinity weight, and every set of sources with departure times, each settled node is reported with its exact shortest distance, nodes are settled in non-decreasing distance order, and exactly the reachable nodes get settled. For each settled node the reported arc path and node path start at a source, follow arcs of the graph, end at the node and have exactly the reported distance as length. The same search object gives the same answers when it is reset and reused, also with another graph.",
  ["inputs", "histories"], "all graphs, weights, source sets, and all sequences of reset/add_source/settle calls",
  "test_dijkstra runs a few hand-made graphs; the quantifier is over all graphs and all reuse histories",
  [H + 'dijkstra.h', H + 'id_queue.h', H + 'timestamp_flag.h'],
  [("label-setting search with decrease-key queue", H + "dijkstra.h Dijkstra::settle"), ("timestamped popped flags", H + "timestamp_flag.h")],
  [("tentative_distance/predecessor_arc", "label of every queued or settled node", H + "dijkstra.h")])
p("C02", "CCH queries return exact shortest distances",
  "For every graph, every node order, and every arc weight vector (infinite weights meaning 'closed'), after customization a query between any source and target (or any sets of sources and targets with initial distances) reports exactly the shortest path distance in the input graph under those weights, or infinity if there is none. Re-customizing with other weights changes the answers to those of the new weights. A copy of a CCH answers like the original, also once the original is gone.",
  ["inputs", "configurations"], "all graphs (also with multi-arcs, loops, disconnected), all node orders, all weights, all source/target sets",
  "the tests compare a handful of random queries on one small test graph per run; errors confined to rare triangles, orders or closed arcs are not sampled",
  [S + 'customizable_contraction_hierarchy.cpp', H + 'customizable_contraction_hierarchy.h'],
  [("chordal supergraph", S + "customizable_contraction_hierarchy.cpp compute_chordal_supergraph"), ("lower triangle relaxation", S + "customizable_contraction_hierarchy.cpp CustomizableContractionHierarchyMetric::customize"), ("elimination tree query", S + "customizable_contraction_hierarchy.cpp CustomizableContractionHierarchyQuery::run")])
p("C03", "CCH paths are real paths of the reported length",
  "For every CCH query that found a distance, the arc path is a walk in the input graph from the used source to the used target whose weights sum (plus the initial distances) to the reported distance, and the node path visits exactly the end points of those arcs in order. When no path exists both paths are empty.",
  ["inputs", "configurations"], "all graphs, orders, weights and queries",
  "the path tests sample few queries on one graph",
  [S + 'customizable_contraction_hierarchy.cpp', H + 'customizable_contraction_hierarchy.h'],
  [("shortcut unpacking by lower triangle search", S + "customizable_contraction_hierarchy.cpp unpack_arc"), ("get_arc_path/get_node_path", S + "customizable_contraction_hierarchy.cpp")])
p("C04", "CCH customization: triangles hold, partial equals full, perfect is exact",
  "After (full) customization the two weights of every CCH arc never exceed the weights of the input arcs mapped to it nor the length of any of its lower triangles, and each is attained by one of them. After any set of input weight changes, a partial customization told about the changed arcs leaves exactly the weights a full customization would compute. A perfect customization yields a contraction hierarchy that answers all distance queries exactly like the CCH.",
  ["inputs", "histories"], "all CCHs, weights, and all sequences of weight changes and partial customizations",
  "the customization test compares one random change set on one graph",
  [S + 'customizable_contraction_hierarchy.cpp'],
  [("customize", S + "customizable_contraction_hierarchy.cpp CustomizableContractionHierarchyMetric::customize"), ("partial customization queue", S + "customizable_contraction_hierarchy.cpp CustomizableContractionHierarchyPartialCustomization"), ("perfect customization", S + "customizable_contraction_hierarchy.cpp build_contraction_hierarchy_using_perfect_witness_search")])
p("C05", "CCH queries do not depend on query history; pinned queries agree",
  "A query object gives, after a reset, the same answers as a fresh object, whatever was asked before and also when it is reset to another metric. For every pinned set of targets (or sources), every subsequent one-to-many (many-to-one) query reports for each pinned node exactly the distance a single pair query reports.",
  ["histories", "inputs"], "all sequences of reset/add/run/pin calls on one query object",
  "the reset and pinned tests run fixed short call sequences",
  [S + 'customizable_contraction_hierarchy.cpp', H + 'customizable_contraction_hierarchy.h'],
  [("CustomizableContractionHierarchyQuery::reset / reset_source / reset_target", S + "customizable_contraction_hierarchy.cpp"), ("pin_targets / run_to_pinned_targets", S + "customizable_contraction_hierarchy.cpp")])
p("C06", "CH queries return exact shortest distances for every contraction order",
  "For every graph with non-negative weights (path lengths below infinity), the contraction hierarchy built with the automatic order, and the one built with any given order, answers every query (any sets of sources and targets with initial distances) with exactly the shortest path distance of the input graph, or infinity if there is none. This holds whatever bound on the witness searches is chosen.",
  ["inputs", "configurations"], "all graphs, weights, orders, witness search limits and queries",
  "the CH tests sample random queries on one small graph",
  [S + 'contraction_hierarchy.cpp', H + 'contraction_hierarchy.h'],
  [("shortcut insertion and witness search", S + "contraction_hierarchy.cpp contract_node / ShorterPathTest"), ("bidirectional upward search with stalling", S + "contraction_hierarchy.cpp ContractionHierarchyQuery::run")])
p("C07", "CH paths are real paths of the reported length",
  "For every CH query that found a distance the arc path is a walk in the input graph from the used source to the used target whose weights sum (plus initial distances) to the reported distance, and the node path lists exactly the nodes of this walk. When no path exists both paths are empty.",
  ["inputs", "configurations"], "all graphs, orders, weights and queries",
  "path tests sample few queries on one graph",
  [S + 'contraction_hierarchy.cpp', H + 'contraction_hierarchy.h'],
  [("unpack_forward_arc / unpack_backward_arc", S + "contraction_hierarchy.cpp"), ("build_unpacking_information", S + "contraction_hierarchy.cpp")])
p("C08", "CH queries do not depend on query history; pinned queries agree",
  "A CH query object gives, after a reset, the same answers as a fresh object, whatever was asked before and also when reset to another hierarchy. For every pinned set of targets or sources (at most as many entries as there are nodes), each following one-to-many or many-to-one query reports for each pinned node exactly the distance of a single pair query.",
  ["histories", "inputs"], "all sequences of reset/add/run/pin calls",
  "pinned tests run fixed short call sequences",
  [S + 'contraction_hierarchy.cpp', H + 'contraction_hierarchy.h'],
  [("ContractionHierarchyQuery::reset*", S + "contraction_hierarchy.cpp"), ("pin_targets / run_to_pinned_targets", S + "contraction_hierarchy.cpp")])
p("C09", "Saving and loading a CH gives back the same CH",
  "For every contraction hierarchy, writing it and reading it back yields a hierarchy that is equal in all its parts and answers every query identically. Reading data that is truncated, has trailing bytes (where the reader is told the size, as for files) or lacks the file signature raises an error and never returns a hierarchy.",
  ["inputs", "fault_sequences"], "all hierarchies and all truncations of the stored data",
  "no existing test stores or loads a hierarchy",
  [S + 'contraction_hierarchy.cpp', S + 'vector_io.cpp'],
  [("ContractionHierarchy::read/write with header and size check", S + "contraction_hierarchy.cpp")])
p("C10", "The id queue behaves as a map from ids to keys with minimum extraction",
  "For every history of operations on the id priority queue, membership, size and the key of every contained id are those of a map that the operations update, and peek/pop deliver an element with the smallest key (pop removing exactly it). Decreasing or increasing a key changes only this id's key, only in the stated direction, and reports whether it did.",
  ["histories"], "all sequences of push/pop/peek/decrease_key/increase_key/clear within the stated preconditions, all id counts",
  "there is no direct test; tests using it run few histories",
  [H + 'id_queue.h'],
  [("4-ary heap with position index", H + "id_queue.h move_up_in_tree / move_down_in_tree")],
  [("id_pos", "position of every id in the heap or invalid", H + "id_queue.h"), ("heap", "heap ordered array of id/key pairs", H + "id_queue.h")])
p("C11", "The id set queue behaves as a set with minimum extraction",
  "For every history of operations on the id set queue, it contains exactly the ids pushed and not popped since, pushing a contained id changes nothing, and peek/pop deliver the smallest contained id, pop removing exactly it.",
  ["histories"], "all sequences of push/pop/peek/empty, all id counts",
  "test_id_set_queue runs one random history of one size",
  [H + 'id_set_queue.h'], [("hierarchy of 64-bit words", H + "id_set_queue.h IDSetMinQueue")])
p("C12", "Timestamp flags behave as a vector of booleans for ever",
  "For every history of set, reset-one and reset-all operations, however long (also past any counter wrap-around), a flag reads as set if and only if it was set after the latest operation that reset it. No operation changes another flag.",
  ["histories"], "all operation sequences of any length",
  "no test performs the tens of thousands of resets needed for a wrap-around",
  [H + 'timestamp_flag.h'], [("16-bit timestamp with refill at wrap-around", H + "timestamp_flag.h reset_all")])
p("C13", "Permutation operations obey the algebra of permutations",
  "A vector is recognised as permutation exactly if it contains each position once; inverting, chaining, the identity, applying a permutation (or its inverse) to a vector and to the elements of a vector compute exactly the documented result for every permutation and vector, including leaving invalid ids alone where documented. Inverting twice, or applying a permutation and then its inverse, gives back the original.",
  ["inputs"], "all permutations and vectors of any length",
  "test_permutation checks a few fixed vectors",
  [H + 'permutation.h'], [("permutation functions", H + "permutation.h")])
p("C14", "Sort permutations are permutations that sort, stably where promised",
  "For every vector and every key function with keys below the key count, the computed (inverse) sort permutations are permutations, applying them yields the vector ordered by key, and the stable variants keep elements with equal keys in their original order; the directly sorting functions return the same elements in that order. This holds on both sides of the internal switch between bucket sort and comparison sort.",
  ["inputs"], "all vectors, key functions and key counts",
  "test_sort samples few random vectors of fixed size",
  [H + 'sort.h'], [("bucket sort / comparison fallback", H + "sort.h detail")])
p("C15", "Inverse vectors index sorted vectors exactly",
  "For every sorted vector of numbers below a bound, the inverse vector delimits for each number exactly the block of positions holding it, starts with 0 and ends with the length. Inverting the inverse vector gives back the original vector, and vice versa.",
  ["inputs"], "all sorted vectors and bounds (also empty, also bound 0)",
  "test_inverse_vector checks fixed examples",
  [H + 'inverse_vector.h'], [("invert_vector / invert_inverse_vector", H + "inverse_vector.h")])
p("C16", "Bit vectors behave as sequences of booleans",
  "For every history of operations a bit vector behaves as a sequence of booleans: reading and setting single bits, resizing with each initialisation mode (old bits kept, new bits as requested), filling, negation, the logical combinations, counting, all-set/none-set tests and comparison agree with that sequence. This includes every size, in particular multiples of the internal block size, and size zero.",
  ["histories", "inputs"], "all sizes and operation sequences",
  "test_bit_vector uses few fixed sizes",
  [S + 'bit_vector.cpp', H + 'bit_vector.h', S + 'bit_select.cpp'], [("zero padding invariant and padding masks", S + "bit_vector.cpp")])
p("C17", "Id mappers map between global and local ids as inverse bijections",
  "For every bit vector, a mapper's local id of a global id in the set is the number of smaller ids in the set, ids outside the set map to the invalid marker given in the lookup, and mapping local ids back to global ids is the exact inverse. All mapper variants agree.",
  ["inputs"], "all bit vectors of any length and density",
  "test_id_mapper samples few random vectors",
  [S + 'id_mapper.cpp', H + 'id_mapper.h', S + 'bit_select.cpp', S + 'bit_vector.cpp'], [("rank/select over blocks", S + "id_mapper.cpp")])
p("C18", "Graph utilities find arcs, convert paths and order arcs correctly",
  "Arc lookup returns an arc from the first to the second node if one exists and the invalid id otherwise, for the plain and the sorted variant. Converting a node path to an arc path and back, for every path of the graph with at least one arc, yields arcs connecting the consecutive nodes and the same nodes. The lexicographic sort permutations order arcs first by the left and then by the right component, for every input.",
  ["inputs"], "all graphs, node pairs, paths and component vectors",
  "no test covers path conversion or the lexicographic orders on unsorted input",
  [S + 'graph_util.cpp', H + 'graph_util.h'], [("graph_util functions", S + "graph_util.cpp")])
p("C19", "Protobuf primitives decode every encoding and never read past the end",
  "For every value, decoding its standard variable-length (or zig-zag) encoding yields the value and advances exactly over the encoding. For every byte sequence whatsoever, decoding either succeeds within the buffer or raises an error, and never reads outside the buffer or silently drops bits.",
  ["inputs"], "all 64-bit values and all byte strings",
  "test_protobuf decodes a few fixed strings",
  [S + 'protobuf.cpp', S + 'protobuf.h'], [("decode_varint_uint64 etc.", S + "protobuf.cpp")])
p("C20", "Vector filters and extremum searches do exactly what they say",
  "Keeping (removing) the elements selected by a filter yields exactly the selected (unselected) elements in their original order, for every vector and filter. The minimum and maximum searches return the first position of an extremal element, and the given default for empty vectors.",
  ["inputs"], "all vectors and filters",
  "there is no direct test",
  [H + 'filter.h', H + 'min_max.h'], [("inplace_keep_element_of_vector_if", H + "filter.h"), ("first_min_element_position_of", H + "min_max.h")])
p("C21", "The largest strongly connected component is found",
  "For every directed graph the computed node selection is a strongly connected component (every two selected nodes reach each other and no further node can be added), and no other component has more nodes.",
  ["inputs"], "all directed graphs",
  "the test uses fixed small graphs",
  [S + 'strongly_connected_component.cpp', H + 'strongly_connected_component.h'], [("iterative path-based component search", S + "strongly_connected_component.cpp")])
p("C22", "Nested dissection yields valid orders and real separators",
  "For every graph and position data the computed nested dissection order is a permutation of the nodes. Every computed node separator, when removed, splits its graph part into sides that have no arc between each other, and every cut balances as requested.",
  ["inputs"], "all graphs and coordinates",
  "test_nested_dissection runs a few fixed grids",
  [S + 'nested_dissection.cpp', H + 'nested_dissection.h'], [("inertial flow cutter", S + "nested_dissection.cpp")])
p("C23", "Tag maps return the value of each key",
  "After building a tag map from any sequence of key/value pairs, looking up any key yields a value stored with that key, and the absent marker (or default) for keys that were not stored; rebuilding forgets the previous content.",
  ["inputs", "histories"], "all key/value sequences and lookups, all rebuild histories",
  "test_tag_map checks one fixed map",
  [H + 'tag_map.h'], [("open addressing hash table", H + "tag_map.h")])
p("C24", "Extra weights of CH shortcuts equal the sums along the paths",
  "For every contraction hierarchy and every extra weight vector with an associative combination function, the extra weight a query reports equals the combination of the extra weights along the reported path, in path order.",
  ["inputs"], "all hierarchies, extra weights and queries",
  "the extra weight test covers one graph",
  [S + 'contraction_hierarchy.cpp', H + 'contraction_hierarchy.h'], [("ContractionHierarchyExtraWeight", H + "contraction_hierarchy.h")])
p("C25", "Nearest node queries find the nearest node",
  "For every set of positions, the nearest neighbour query returns a node with minimum geographic distance (or none within the radius), and the radius query returns exactly the nodes within the radius.",
  ["inputs"], "all coordinates, radii and query points",
  "test_nearest_neighbor samples random points",
  [S + 'geo_position_to_node.cpp', H + 'geo_dist.h'], [("ball tree search", S + "geo_position_to_node.cpp")])
p("C26", "Parallel customization equals sequential customization under every schedule",
  "For every CCH and metric and every number of threads and interleaving, parallel customization leaves exactly the weights sequential customization computes.",
  ["schedules", "inputs"], "all thread schedules",
  "tests run one schedule per execution",
  [S + 'customizable_contraction_hierarchy.cpp'], [("level-wise parallel loops with atomic minimum", S + "customizable_contraction_hierarchy.cpp CustomizableContractionHierarchyParallelization")])
p("C27", "Buffered asynchronous reading delivers the byte stream exactly",
  "For every data source (any chunk sizes, errors, end of file) and every sequence of read sizes, the asynchronous reader delivers exactly the bytes of the source in order, and errors of the source reach the reader.",
  ["schedules", "fault_sequences"], "all schedules, chunkings and read sequences",
  "one test, one schedule",
  [S + 'buffered_asynchronous_reader.cpp'], [("worker thread with condition variables", S + "buffered_asynchronous_reader.cpp")])
p("C28", "Stored vectors load back unchanged",
  "For every vector saved to a file, loading the file yields an equal vector, and a file whose size does not fit is rejected.",
  ["inputs", "fault_sequences"], "all vectors and element types",
  "no direct test",
  [H + 'vector_io.h', S + 'vector_io.cpp'], [("save_vector / load_vector", H + "vector_io.h")])
p("C29", "OSM data becomes the road graph it describes",
  "For every OSM PBF input, the decoded objects are the objects in the file, and the extracted graph has exactly the nodes and arcs that the profile selects, with geometrically consistent lengths.",
  ["inputs"], "all PBF files",
  "one tiny fixture",
  [S + 'osm_decoder.cpp', S + 'osm_graph_builder.cpp', S + 'osm_profile.cpp', S + 'osm_simple.cpp'], [("PBF decoder and graph builder", S + "osm_graph_builder.cpp")])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
