"""What each check runs: proof units (contracts/*.unit) and the replay / bounded stand-in harness."""
CORE = ['bit_vector', 'id_mapper', 'bit_select']
GRAPH = CORE + ['graph_util', 'strongly_connected_component', 'nested_dissection', 'timer']
CCH = CORE + ['graph_util', 'nested_dissection', 'timer', 'customizable_contraction_hierarchy', 'contraction_hierarchy', 'vector_io']
HARNESS = {
    'h_queue': [], 'h_vec': ['bit_vector'], 'h_bits': CORE, 'h_proto': ['protobuf'], 'h_graph': GRAPH, 'h_cch': CCH, 'h_ch': CCH,
}
# property -> harness, proof units, whether the units cover the whole property ("proof") or only part of it ("other"),
# what the units prove and what only the bounded stand-in covers
CHECKS = {
    'C01': dict(h='h_graph', units=['dij'], level='proof',
        assume=['the weight functor is a function of the arc alone (template instantiated with ScalarGetWeight)', 'fewer than 2^30 nodes', 'the graph vectors the object points to are not changed while it is in use']),
    'C02': dict(h='h_cch', units=['cchq1', 'cchm1'], level='other',
        note='proved for all inputs, from any CCH whose structure satisfies all_wf: customization, adding sources and targets, both elimination tree searches, and get_distance returns exactly the least length over all walks of input arcs from a source to a target (soundness and completeness lemmas); bounded: that the constructor builds such a structure',
        assume=['the CCH constructor establishes CustomizableContractionHierarchy::all_wf (bounded check only)', 'the pointed-to CCH, metric and weight vector are not changed while in use', 'weights and initial distances at most inf_weight', 'fewer than 2^32-1 sources, targets or pinned nodes; fewer than 2^30 nodes']),
    'C03': dict(h='h_cch', units=['cchw'], level='other',
        note='proved for all inputs, from any CCH whose structure satisfies all_wf and any customized metric: after any run, get_arc_path is a walk of input arcs whose length plus the initial distances of its ends is the reported distance, get_node_path is the used source followed by the heads of exactly the segments these arcs stand for and ends in the used target, both are empty if there is no path; the merge search for a lower triangle, the choice among parallel input arcs and the recursive unpacking terminate, stay in bounds and always find what they look for; bounded: that the constructor builds such a structure',
        assume=['the CCH constructor establishes CustomizableContractionHierarchy::all_wf (bounded check only)', 'the pointed-to CCH, metric and weight vector are not changed while in use', 'weights and initial distances at most inf_weight', 'fewer than 2^32-1 sources and targets; fewer than 2^30 nodes', 'assumed contracts of std::lower_bound and std::is_sorted']),
    'C04': dict(h='h_cch', units=['cchm'], level='other',
        note='proved for all inputs: construction and reset of metrics, initial weights, full customization (all weights at most the input weights and lower triangles, each attained), queueing of changed arcs, partial customization, and as lemmas that such weights are unique (so partial equals full); assumed there: the structure of the CCH the constructor builds (arc order, downward graph, chordality or filtered chordality, input arc tables). Bounded: the constructor and the perfect customization',
        assume=['the CCH constructor establishes CustomizableContractionHierarchy::wf (bounded check only)', 'the pointed-to CCH and weight vector are not changed while in use', 'weights at most inf_weight']),
    'C05': dict(h='h_cch', units=['cchq'], level='other',
        note='proved for all inputs, from any CCH whose structure satisfies all_wf: the class invariant of the query object over all its six states, reset (also to another metric) from each of them re-establishes the state of a fresh object, pinning, the pinned searches in both directions, and the distances they report are exactly the least walk lengths, the same as get_distance; bounded: that the constructor builds such a structure',
        assume=['the CCH constructor establishes CustomizableContractionHierarchy::all_wf (bounded check only)', 'the pointed-to CCH, metric and weight vector are not changed while in use', 'weights and initial distances at most inf_weight', 'fewer than 2^32-1 sources, targets or pinned nodes; fewer than 2^30 nodes']),
    'C06': dict(h='h_ch', units=['chq1'], level='other',
        note='proved for all inputs, from any CH in which every walk has an up-down walk of at most its length: adding sources and targets, the bidirectional search with stall-on-demand and its stopping rule, and get_distance returns exactly the least length over all walks from a source to a target, get_used_source and get_used_target name the ends of such a walk; bounded: that the builder produces such a CH with the distances of the input graph',
        assume=['the CH builder establishes ContractionHierarchy::wf: sorted upward graphs, rank and order inverse, and for every walk an up-down walk that is no longer (bounded check only)', 'the pointed-to CH is not changed while in use', 'initial distances below inf_weight; fewer than 2^30 nodes; at most 2^32-1 pinned nodes', 'assumed contract of std::reverse']),
    'C07': dict(h='h_ch', units=['chp'], level='other',
        note='proved for all inputs, from any CH whose arcs stand for input arcs or for two arcs over a lower node: after any run, get_arc_path is a walk of input arcs from the used source to the used target whose length plus the initial distances is the reported distance, get_node_path is the used source followed by the heads of exactly these arcs, both are empty if there is no path, get_used_source and get_used_target name the ends of this walk; the recursive unpacking terminates and stays in bounds; bounded: that the builder produces such a CH',
        assume=['the CH builder establishes ContractionHierarchy::wf and ::stand: every arc of the hierarchy is an input arc with its weight and head, or the concatenation of a backward and a forward arc of a lower node (bounded check only)', 'the pointed-to CH is not changed while in use', 'initial distances below inf_weight; fewer than 2^30 nodes', 'assumed contract of std::reverse']),
    'C08': dict(h='h_ch', units=['chq'], level='other',
        note='proved for all inputs, from any CH in which every walk has an up-down walk of at most its length: the class invariant of the query object over its six states, reset (also to another CH) re-establishes the state of a fresh object, pinning, resetting one side, the pinned searches in both directions, the distances they report are exactly the least walk lengths and the used sources and targets are ends of such walks; bounded: the builder',
        assume=['the CH builder establishes ContractionHierarchy::wf: sorted upward graphs, rank and order inverse, and for every walk an up-down walk that is no longer (bounded check only)', 'the pointed-to CH is not changed while in use', 'initial distances below inf_weight; fewer than 2^30 nodes; at most 2^32-1 pinned nodes', 'assumed contract of std::reverse']),
    'C09': dict(h='h_ch', units=[], level='other'),
    'C10': dict(h='h_queue', units=['minq'], level='proof'),
    'C11': dict(h='h_queue', units=['setq'], level='proof'),
    'C12': dict(h='h_queue', units=['ts'], level='proof'),
    'C13': dict(h='h_vec', units=['perm'], level='proof'),
    'C14': dict(h='h_vec', units=['sort'], level='proof'),
    'C15': dict(h='h_vec', units=['inv'], level='proof'),
    'C16': dict(h='h_bits', units=['bv'], level='proof',
        assume=['sizes up to 2^62 bits', 'the destructor and the release of memory are not modelled; ownership transfer is (a moved-from pointer must be overwritten)', 'the operand of an assigning operator is another object', 'assumed meaning of the compiler intrinsic popcount']),
    'C17': dict(h='h_bits', units=['idmap'], level='proof',
        assume=['sizes up to 2^62 bits; IDMapper for fewer than 2^32 - 256 set bits (its select counters have 32 bits)', 'the bit vector is not changed while a mapper refers to it', 'assumed meaning of the compiler intrinsics popcount and ffs']),
    'C18': dict(h='h_graph', units=['gutil'], level='proof'),
    'C19': dict(h='h_proto', units=['proto'], level='proof'),
    'C20': dict(h='h_vec', units=['filter', 'minmax'], level='proof'),
    'C21': dict(h='h_graph', units=['scc'], level='proof'),
    'C22': dict(h='h_graph', units=[], level='other'),
    'C23': dict(h='h_proto', units=['tag'], level='proof',
        assume=['keys are non-null C strings shorter than 2^32 - 1 and do not change while the map refers to them', 'assumed meaning of strlen, strcmp and std::sort', 'the key and value functors are functions of the position alone']),
    'C24': dict(h='h_ch', units=['chx', 'chxp'], level='other',
        note='proved for all inputs and every associative combination function, from any CH whose arcs stand for input arcs or for two arcs over a lower node: get_extra_weight_distance is the combination, in path order, of the extra weights of the arcs of the walk that get_arc_path returns (0 if there is none); ContractionHierarchyExtraWeight::reset gives every arc of the hierarchy the combination along the input arcs it stands for; all overloads of get_extra_weight_distances_to_targets and _to_sources report for every pinned node the combination along a shortest walk of input arcs from (to) the used end, 0 if there is none, and leave the query usable; both for plain weight vectors and for precomputed weights; bounded: that the builder produces such a CH, and the weight types other than unsigned',
        assume=['the CH builder establishes ContractionHierarchy::wf and ::stand (bounded check only)', 'the combination function is a pure associative function on unsigned (an arbitrary one: an uninterpreted function)', 'the pointed-to CH is not changed while in use', 'initial distances below inf_weight; fewer than 2^30 nodes']),
}
NOT_APPLICABLE = {
    'C25': 'nearest node queries are decided by floating point geometry (sin, cos, sqrt on double/float); no installed deductive verifier reasons about these functions, a contract could only be assumed',
    'C26': 'quantifies over thread schedules of an OpenMP parallel loop; the contract verifier checks sequential functions and has no model of OpenMP',
    'C27': 'the reader hands a buffer between two threads; the property is about every interleaving of both, which sequential contracts cannot express',
    'C28': 'the content is produced and consumed by the operating system (fopen/fread/stat); a contract on the code would only restate an assumed contract of the file system',
    'C29': 'goes through zlib decompression and a callback driven parser of an external binary format, string handling and hash maps; outside the translatable subset',
}
