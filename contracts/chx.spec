sharefield ContractionHierarchyQuery ch ContractionHierarchy
functor vl::Link lnk_exec lnk

fn ShortcutWeights::get_forward_weight
  ghost gc: ContractionHierarchy
  ghost gw: Seq<u32>
  ghost gi: In
  ghost gv: int
  requires
    - this.holds(gc, gw, gi) && gc.h().f.arc(gv, a as int)
  ensures
    - r == gc.xf(gw, gv, a as int)
  decreases gv
  callghost ShortcutWeights::get_backward_weight gv /./ gc.via(&gc.forward, gv, a as int)
  callghost ShortcutWeights::get_forward_weight gv /./ gc.via(&gc.forward, gv, a as int)
  entry
    proof { this.lemma_get(gc, gw, gi, true, gv, a as int); }

fn ShortcutWeights::get_backward_weight
  ghost gc: ContractionHierarchy
  ghost gw: Seq<u32>
  ghost gi: In
  ghost gv: int
  requires
    - this.holds(gc, gw, gi) && gc.h().b.arc(gv, a as int)
  ensures
    - r == gc.xb(gw, gv, a as int)
  decreases gv
  callghost ShortcutWeights::get_backward_weight gv /./ gc.via(&gc.backward, gv, a as int)
  callghost ShortcutWeights::get_forward_weight gv /./ gc.via(&gc.backward, gv, a as int)
  entry
    proof { this.lemma_get(gc, gw, gi, false, gv, a as int); }

fn get_extra_weight_up_distance targs=/vl::Link>$/ rust=/up_distance_fwd/
  hide ShortcutWeights::holds
  ghost gq: ContractionHierarchyQuery
  ghost gw: Seq<u32>
  ghost src: Map<int, int>
  ghost tgt: Map<int, int>
  ghost gi: In
  requires
    - gq.ran(src, tgt) && gq.c().stand(gi) && assoc() && shortcut_weights.holds(gq.c(), gw, gi)
    - gq.f().pn == forward_predecessor_node@ && gq.f().pa == forward_predecessor_arc@
    - gq.f().pu(shortest_path_meeting_node as int) && gq.f().pn[shortest_path_meeting_node as int] != INV()
  ensures
    - r == xw(gw, gq.ascent(shortest_path_meeting_node as int))
  callghost ShortcutWeights::get_forward_weight gc /./ gq.c()
  callghost ShortcutWeights::get_forward_weight gv /./ gq.f().pn[x as int] as int
  entry
    let ghost w = gw; let ghost m = shortest_path_meeting_node as int; let ghost mut q = Seq::<Seg>::empty();
    proof { lemma_parts(&gq.f(), gq.h(), gq.n(), src, true, -1); assert(gq.f().wit(gq.h().f, src, m)) by { reveal(S::inv_but); } assert(gq.f().po(gq.f().pn[m] as int)); }
  loop 0 before
    proof { q = gq.c().unp(&gq.c().forward, x as int, gq.f().pa[m] as int); gq.c().unp_some_fwd(gi, x as int, gq.f().pa[m] as int); }
  loop 0 invariant
    - gq.f().pu(x as int) && q.len() > 0 && gq.ascent(m) == gq.ascent(x as int) + q && ret == xw(w, q)
  loop 0 decreases x
  loop 0 begin
    let ghost x0 = x as int; let ghost q0 = q;
    proof { assert(gq.f().wit(gq.h().f, src, x as int)) by { reveal(S::inv_but); } assert(gq.f().po(gq.f().pn[x as int] as int)); }
  loop 0 end
    proof { let u = gq.c().unp(&gq.c().forward, x as int, gq.f().pa[x0] as int); gq.c().unp_some_fwd(gi, x as int, gq.f().pa[x0] as int); xw_cat(w, u, q0); q = u + q0; assert(gq.ascent(x0) + q0 =~= gq.ascent(x as int) + q); }
  loop 0 after
    proof { xw_none(w, gq.ascent(x as int), q); }

fn get_extra_weight_up_distance targs=/InverseLinkFunction/ rust=/up_distance_bwd/
  hide ShortcutWeights::holds
  ghost gq: ContractionHierarchyQuery
  ghost gw: Seq<u32>
  ghost src: Map<int, int>
  ghost tgt: Map<int, int>
  ghost gi: In
  requires
    - gq.ran(src, tgt) && gq.c().stand(gi) && assoc() && shortcut_weights.holds(gq.c(), gw, gi)
    - gq.b().pn == forward_predecessor_node@ && gq.b().pa == forward_predecessor_arc@
    - gq.b().pu(shortest_path_meeting_node as int) && gq.b().pn[shortest_path_meeting_node as int] != INV()
  ensures
    - r == xw(gw, gq.descent(shortest_path_meeting_node as int))
  callghost ShortcutWeights::get_backward_weight gc /./ gq.c()
  callghost ShortcutWeights::get_backward_weight gv /./ gq.b().pn[x as int] as int
  entry
    let ghost w = gw; let ghost m = shortest_path_meeting_node as int; let ghost mut q = Seq::<Seg>::empty();
    proof { lemma_parts(&gq.b(), rev(gq.h()), gq.n(), tgt, true, -1); assert(gq.b().wit(gq.h().b, tgt, m)) by { reveal(S::inv_but); } assert(gq.b().po(gq.b().pn[m] as int)); }
  loop 0 before
    proof { q = gq.c().unp(&gq.c().backward, x as int, gq.b().pa[m] as int); gq.c().unp_some_bwd(gi, x as int, gq.b().pa[m] as int); }
  loop 0 invariant
    - gq.b().pu(x as int) && q.len() > 0 && gq.descent(m) == q + gq.descent(x as int) && ret == xw(w, q)
  loop 0 decreases x
  loop 0 begin
    let ghost x0 = x as int; let ghost q0 = q;
    proof { assert(gq.b().wit(gq.h().b, tgt, x as int)) by { reveal(S::inv_but); } assert(gq.b().po(gq.b().pn[x as int] as int)); }
  loop 0 end
    proof { let u = gq.c().unp(&gq.c().backward, x as int, gq.b().pa[x0] as int); gq.c().unp_some_bwd(gi, x as int, gq.b().pa[x0] as int); xw_cat(w, q0, u); q = q0 + u; assert(q0 + gq.descent(x0) =~= q + gq.descent(x as int)); }
  loop 0 after
    proof { xw_none(w, q, gq.descent(x as int)); }

fn internal_get_extra_weight_distance
  hide ShortcutWeights::holds
  ghost gq: ContractionHierarchyQuery
  ghost gw: Seq<u32>
  ghost src: Map<int, int>
  ghost tgt: Map<int, int>
  ghost gi: In
  requires
    - gq.ran(src, tgt) && gq.c().stand(gi) && assoc() && shortcut_weights.holds(gq.c(), gw, gi)
    - gq.f().pn == forward_predecessor_node@ && gq.f().pa == forward_predecessor_arc@
    - gq.b().pn == backward_predecessor_node@ && gq.b().pa == backward_predecessor_arc@ && gq.meet() == shortest_path_meeting_node
  ensures
    - gq.dist() == INF() ==> r == 0
    - gq.dist() != INF() ==> r == comb(gw, arcs(gq.path())) && gq.path_ok(gi, src, tgt, arcs(gq.path()))
  entry
    let ghost w = gw; let ghost m = gq.meet();
    proof { lemma_parts(&gq.f(), gq.h(), gq.n(), src, true, -1); lemma_parts(&gq.b(), rev(gq.h()), gq.n(), tgt, true, -1);
      if m != INV() {
        gq.lemma_path(gi, src, tgt); assert(gq.f().small() && gq.b().small());
        assert(gq.f().wit(gq.h().f, src, m)) by { reveal(S::inv_but); } assert(gq.b().wit(gq.h().b, tgt, m)) by { reveal(S::inv_but); }
        if gq.f().pn[m] != INV() { gq.c().unp_some_fwd(gi, gq.f().pn[m] as int, gq.f().pa[m] as int); }
        if gq.b().pn[m] != INV() { gq.c().unp_some_bwd(gi, gq.b().pn[m] as int, gq.b().pa[m] as int); }
        if gq.f().pn[m] != INV() && gq.b().pn[m] != INV() { xw_cat(w, gq.ascent(m), gq.descent(m)); } else { xw_none(w, gq.ascent(m), gq.descent(m)); }
      } }

fn ContractionHierarchyQuery::get_extra_weight_distance
  ghost gw: Seq<u32>
  ghost src: Map<int, int>
  ghost tgt: Map<int, int>
  ghost gi: In
  requires
    - old(this).ran(src, tgt) && old(this).c().stand(gi) && assoc() && given(*extra_weight, old(this).c(), gw) && gw.len() == gi.tail.len()
  ensures
    - *final(this) == *old(this)
    - old(this).dist() == INF() ==> r == 0
    - old(this).dist() != INF() ==> r == comb(gw, arcs(old(this).path())) && old(this).path_ok(gi, src, tgt, arcs(old(this).path()))
  callghost internal_get_extra_weight_distance gq /./ *this

fn ContractionHierarchyQuery::get_extra_weight_distances_to_targets sig=/std::vector<unsigned int> &, std::vector<unsigned int> &\)/ rust=/Query_x_targets_3/
  hide TimestampFlags::flag TimestampFlags::wf MinIDQueue::wf MinIDQueue::has MinIDQueue::key
  ghost gw: Seq<u32>
  ghost gi: In
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  callghost extract_x_t gt /./ (Tr { d: true, c: this.c(), g: gi, w: gw, s: s, t: this.f(), src: src, sel: this.backward_tentative_distance@, cnt: this.cnt() })
  requires
    - old(this).ran_t(src, list, s) && old(this).c().stand(gi) && assoc() && given(*extra_weight, old(this).c(), gw) && gw.len() == gi.tail.len()
    - old(tmp)@.len() >= old(this).n() && old(dist)@.len() >= list.len()
  ensures
    - final(this).ran_t(src, list, s) && final(this).ch == old(this).ch
    - final(tmp)@.len() == old(tmp)@.len() && final(dist)@.len() == old(dist)@.len()
    - forall|i: int| 0 <= i < list.len() ==> (Tr { d: true, c: old(this).c(), g: gi, w: gw, s: s, t: old(this).f(), src: src, sel: old(this).backward_tentative_distance@, cnt: old(this).cnt() }).right(list[i] as int, #[trigger] final(dist)@[i])
  entry
    proof { let t = (Tr { d: true, c: this.c(), g: gi, w: gw, s: s, t: this.f(), src: src, sel: this.backward_tentative_distance@, cnt: this.cnt() });  assert(t.ok()) by { reveal(Tr::ok); } }

fn ContractionHierarchyQuery::get_extra_weight_distances_to_targets sig=/vl::Link &, std::vector<unsigned int> &\)/ rust=/Query_x_targets_2/
  ghost gw: Seq<u32>
  ghost gi: In
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  requires
    - old(this).ran_t(src, list, s) && old(this).c().stand(gi) && assoc() && given(*extra_weight, old(this).c(), gw) && gw.len() == gi.tail.len()
    - old(tmp)@.len() >= old(this).n()
  ensures
    - final(this).ran_t(src, list, s) && final(this).ch == old(this).ch && r@.len() == list.len()
    - forall|i: int| 0 <= i < list.len() ==> (Tr { d: true, c: old(this).c(), g: gi, w: gw, s: s, t: old(this).f(), src: src, sel: old(this).backward_tentative_distance@, cnt: old(this).cnt() }).right(list[i] as int, #[trigger] r@[i])
    - final(tmp)@.len() == old(tmp)@.len()

fn ContractionHierarchyQuery::get_extra_weight_distances_to_targets sig=/vl::Link &\)/ rust=/Query_x_targets_1/
  ghost gw: Seq<u32>
  ghost gi: In
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  requires
    - old(this).ran_t(src, list, s) && old(this).c().stand(gi) && assoc() && given(*extra_weight, old(this).c(), gw) && gw.len() == gi.tail.len()
  ensures
    - final(this).ran_t(src, list, s) && final(this).ch == old(this).ch && r@.len() == list.len()
    - forall|i: int| 0 <= i < list.len() ==> (Tr { d: true, c: old(this).c(), g: gi, w: gw, s: s, t: old(this).f(), src: src, sel: old(this).backward_tentative_distance@, cnt: old(this).cnt() }).right(list[i] as int, #[trigger] r@[i])


fn ContractionHierarchyQuery::get_extra_weight_distances_to_sources sig=/std::vector<unsigned int> &, std::vector<unsigned int> &\)/ rust=/Query_x_sources_3/
  hide TimestampFlags::flag TimestampFlags::wf MinIDQueue::wf MinIDQueue::has MinIDQueue::key
  ghost gw: Seq<u32>
  ghost gi: In
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  callghost extract_x_s gt /./ (Tr { d: false, c: this.c(), g: gi, w: gw, s: s, t: this.b(), src: src, sel: this.forward_tentative_distance@, cnt: this.cnt() })
  requires
    - old(this).ran_s(src, list, s) && old(this).c().stand(gi) && assoc() && given(*extra_weight, old(this).c(), gw) && gw.len() == gi.tail.len()
    - old(tmp)@.len() >= old(this).n() && old(dist)@.len() >= list.len()
  ensures
    - final(this).ran_s(src, list, s) && final(this).ch == old(this).ch
    - final(tmp)@.len() == old(tmp)@.len() && final(dist)@.len() == old(dist)@.len()
    - forall|i: int| 0 <= i < list.len() ==> (Tr { d: false, c: old(this).c(), g: gi, w: gw, s: s, t: old(this).b(), src: src, sel: old(this).forward_tentative_distance@, cnt: old(this).cnt() }).right(list[i] as int, #[trigger] final(dist)@[i])
  entry
    proof { let t = (Tr { d: false, c: this.c(), g: gi, w: gw, s: s, t: this.b(), src: src, sel: this.forward_tentative_distance@, cnt: this.cnt() }); lemma_ud_rev(this.h()); assert(t.ok()) by { reveal(Tr::ok); } }

fn ContractionHierarchyQuery::get_extra_weight_distances_to_sources sig=/vl::Link &, std::vector<unsigned int> &\)/ rust=/Query_x_sources_2/
  ghost gw: Seq<u32>
  ghost gi: In
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  requires
    - old(this).ran_s(src, list, s) && old(this).c().stand(gi) && assoc() && given(*extra_weight, old(this).c(), gw) && gw.len() == gi.tail.len()
    - old(tmp)@.len() >= old(this).n()
  ensures
    - final(this).ran_s(src, list, s) && final(this).ch == old(this).ch && r@.len() == list.len()
    - forall|i: int| 0 <= i < list.len() ==> (Tr { d: false, c: old(this).c(), g: gi, w: gw, s: s, t: old(this).b(), src: src, sel: old(this).forward_tentative_distance@, cnt: old(this).cnt() }).right(list[i] as int, #[trigger] r@[i])
    - final(tmp)@.len() == old(tmp)@.len()

fn ContractionHierarchyQuery::get_extra_weight_distances_to_sources sig=/vl::Link &\)/ rust=/Query_x_sources_1/
  ghost gw: Seq<u32>
  ghost gi: In
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  requires
    - old(this).ran_s(src, list, s) && old(this).c().stand(gi) && assoc() && given(*extra_weight, old(this).c(), gw) && gw.len() == gi.tail.len()
  ensures
    - final(this).ran_s(src, list, s) && final(this).ch == old(this).ch && r@.len() == list.len()
    - forall|i: int| 0 <= i < list.len() ==> (Tr { d: false, c: old(this).c(), g: gi, w: gw, s: s, t: old(this).b(), src: src, sel: old(this).forward_tentative_distance@, cnt: old(this).cnt() }).right(list[i] as int, #[trigger] r@[i])


fn InvertShorcutWeights::get_forward_weight
  hide ShortcutWeights::holds
  ghost gc: ContractionHierarchy
  ghost gw: Seq<u32>
  ghost gi: In
  ghost gv: int
  requires
    - this.shortcut_weights.holds(gc, gw, gi) && gc.h().b.arc(gv, a as int)
  ensures
    - r == gc.xb(gw, gv, a as int)

fn InvertShorcutWeights::get_backward_weight
  hide ShortcutWeights::holds
  ghost gc: ContractionHierarchy
  ghost gw: Seq<u32>
  ghost gi: In
  ghost gv: int
  requires
    - this.shortcut_weights.holds(gc, gw, gi) && gc.h().f.arc(gv, a as int)
  ensures
    - r == gc.xf(gw, gv, a as int)

fn extract_distances_to_targets sig=/const RoutingKit::vl::Link &\)/ rust=/extract_x_t/
  hide ShortcutWeights::holds TimestampFlags::flag TimestampFlags::wf
  ghost gt: Tr
  ghost list: Seq<u32>
  callghost ShortcutWeights::get_forward_weight gv /./ forward_predecessor_node@[x as int] as int
  callghost ShortcutWeights::get_backward_weight gv /./ x as int
  callghost ShortcutWeights::get_forward_weight gc /./ gt.c
  callghost ShortcutWeights::get_forward_weight gw /./ gt.w
  callghost ShortcutWeights::get_forward_weight gi /./ gt.g
  callghost ShortcutWeights::get_backward_weight gc /./ gt.c
  callghost ShortcutWeights::get_backward_weight gw /./ gt.w
  callghost ShortcutWeights::get_backward_weight gi /./ gt.g
  requires
    - gt.ok() && gt.d && extra_weight.holds(gt.c, gt.w, gt.g)
    - target_count == list.len() && list_ok(gt.sel, gt.cnt, target_list@, list)
    - *has_forward_predecessor == gt.t.w && forward_predecessor_node@ == gt.t.pn && predecessor_arc@ == gt.t.pa && backward_head@ == gt.h().b.head
    - old(source_to_node_distance)@.len() >= gt.n() && old(output)@.len() >= list.len() && old(stack)@.len() == gt.n()
    - old(has_source_to_node_distance).wf() && old(has_source_to_node_distance).last_seen@.len() == gt.n()
  ensures
    - final(source_to_node_distance)@.len() == old(source_to_node_distance)@.len() && final(stack)@.len() == gt.n()
    - final(has_source_to_node_distance).wf() && final(has_source_to_node_distance).last_seen@.len() == gt.n()
    - final(output)@.len() == old(output)@.len()
    - forall|i: int| 0 <= i < list.len() ==> gt.right(list[i] as int, #[trigger] final(output)@[i])
  entry
    let ghost mut gp = Seq::<St>::empty(); let ghost mut gx = 0int; let ghost n = gt.n();
    proof { gt.lemma_facts(); }
  loop 0 before
    proof { gt.lemma_vals_none(*has_source_to_node_distance, source_to_node_distance@); }
  loop 0 invariant
    - 0 <= i <= target_count && target_count == list.len() && stack_size == 0 && nodes_on_stack_with_forward_precessor_count == 0
    - gt.vals(*has_source_to_node_distance, source_to_node_distance@) && stack@.len() == n
    - source_to_node_distance@.len() == old(source_to_node_distance)@.len() && output@.len() == old(output)@.len()
    - forall|j: int| 0 <= j < i ==> gt.right(list[j] as int, #[trigger] output@[j])
  loop 0 decreases target_count - i
  loop 0 begin
    proof { assert(target_list@[i as int] == list[i as int]); gt.lemma_start(list[i as int] as int); gt.lemma_vals(*has_source_to_node_distance, source_to_node_distance@, list[i as int] as int); }
    let ghost o0 = output@;
  loop 0 end
    proof { let z = list[i as int] as int; if gt.t.td[z] < INF() { gt.lemma_vals(*has_source_to_node_distance, source_to_node_distance@, z); gt.lemma_right(z, output@[i as int]); }
      assert forall|j: int| 0 <= j < i + 1 implies gt.right(list[j] as int, #[trigger] output@[j]) by { if j < i { assert(output@[j] == o0[j]); } } }
  loop 0 after
    proof { gt.lemma_vals_wf(*has_source_to_node_distance, source_to_node_distance@); }
  loop 1 before
    proof { gp = Seq::<St>::empty(); gx = x as int; gt.lemma_chn_none(*has_source_to_node_distance, stack@, t as int); }
  loop 1 invariant_except_break
    - !RETURNED && !has_source_to_node_distance.flag(x as int)
  loop 1 invariant
    - gt.upon(x as int, gp, t as int) && gx == x && nodes_on_stack_with_forward_precessor_count == 0 && stack@.len() == n
    - gt.chn(*has_source_to_node_distance, stack@, stack_size as int, 0, x as int, t as int)
  loop 1 ensures
    - RETURNED ==> has_source_to_node_distance.flag(x as int)
    - !RETURNED ==> !has_source_to_node_distance.flag(x as int) && gt.flag(x as int)
  loop 1 decreases gt.mu(x as int)
  loop 1 begin
    let ghost st0 = stack@; let ghost k0 = stack_size as int;
    proof { gp = gt.lemma_back(x as int, gp, t as int); gx = gt.par(x as int); gt.lemma_room(*has_source_to_node_distance, stack@, stack_size as int, 0, x as int, t as int);
      gt.lemma_chn_push(*has_source_to_node_distance, st0, k0, 0, x, t as int, st0.update(k0, x)); }
  loop 2 invariant_except_break
    - !RETURNED && !has_source_to_node_distance.flag(x as int)
  loop 2 invariant
    - gt.flag(x as int) && gt.upon(x as int, gp, t as int) && gx == x && stack@.len() == n
    - gt.chn(*has_source_to_node_distance, stack@, stack_size as int, nodes_on_stack_with_forward_precessor_count as int, x as int, t as int)
  loop 2 ensures
    - RETURNED ==> has_source_to_node_distance.flag(x as int)
    - !RETURNED ==> !has_source_to_node_distance.flag(x as int) && forward_predecessor_node@[x as int] == INV()
  loop 2 decreases gt.mu(x as int)
  loop 2 begin
    let ghost st0 = stack@; let ghost k0 = stack_size as int;
    proof { let f = nodes_on_stack_with_forward_precessor_count as int; gp = gt.lemma_back(x as int, gp, t as int); gx = gt.par(x as int); gt.lemma_room(*has_source_to_node_distance, stack@, k0, f, x as int, t as int);
      gt.lemma_chn_top(*has_source_to_node_distance, stack@, k0, f, x as int, t as int);
      gt.lemma_chn_push(*has_source_to_node_distance, st0, k0, f, x, t as int, st0.update(k0, x)); }
  loop 2 after
    proof { if !RETURNED { let u = gt.lemma_back(x as int, gp, t as int); gt.lemma_vals_root(*has_source_to_node_distance, source_to_node_distance@, x as int, source_to_node_distance@.update(x as int, 0u32)); gt.lemma_root(x as int); }
      gt.lemma_vals(*has_source_to_node_distance, source_to_node_distance@, x as int); }
  loop 3 before
    proof { gt.lemma_chn_top(*has_source_to_node_distance, stack@, stack_size as int, nodes_on_stack_with_forward_precessor_count as int, gx, t as int); gt.lemma_vals(*has_source_to_node_distance, source_to_node_distance@, gx); }
  loop 3 invariant
    - stack@.len() == n && gt.vals(*has_source_to_node_distance, source_to_node_distance@) && source_to_node_distance@.len() == old(source_to_node_distance)@.len()
    - gt.chn(*has_source_to_node_distance, stack@, stack_size as int, nodes_on_stack_with_forward_precessor_count as int, gx, t as int)
    - !has_source_to_node_distance.flag(gx) ==> gt.tp(gx).len() == 0
    - source_to_node_distance@[gx] == xw(gt.w, gt.tp(gx))
  loop 3 decreases stack_size
  loop 3 begin
    let ghost h0 = *has_source_to_node_distance; let ghost t0 = source_to_node_distance@; let ghost k0 = stack_size as int; let ghost f0 = nodes_on_stack_with_forward_precessor_count as int; let ghost y0 = stack@[k0 - 1] as int;
    proof { gt.lemma_chn_top(h0, stack@, k0, f0, gx, t as int); gt.lemma_val(y0); gt.lemma_vals(h0, t0, gx); gt.lemma_vals(h0, t0, y0); }
  loop 3 end
    proof { gt.lemma_pop(h0, t0, stack@, k0, f0, gx, t as int, y0, *has_source_to_node_distance, source_to_node_distance@); gx = y0; }
  loop 3 after
    proof { gt.lemma_chn_top(*has_source_to_node_distance, stack@, 0, nodes_on_stack_with_forward_precessor_count as int, gx, t as int); }

fn extract_distances_to_targets sig=/InvertShorcutWeights.*\)/ rust=/extract_x_s/
  hide ShortcutWeights::holds TimestampFlags::flag TimestampFlags::wf
  ghost gt: Tr
  ghost list: Seq<u32>
  callghost InvertShorcutWeights::get_forward_weight gv /./ forward_predecessor_node@[x as int] as int
  callghost InvertShorcutWeights::get_backward_weight gv /./ x as int
  callghost InvertShorcutWeights::get_forward_weight gc /./ gt.c
  callghost InvertShorcutWeights::get_forward_weight gw /./ gt.w
  callghost InvertShorcutWeights::get_forward_weight gi /./ gt.g
  callghost InvertShorcutWeights::get_backward_weight gc /./ gt.c
  callghost InvertShorcutWeights::get_backward_weight gw /./ gt.w
  callghost InvertShorcutWeights::get_backward_weight gi /./ gt.g
  requires
    - gt.ok() && !gt.d && extra_weight.shortcut_weights.holds(gt.c, gt.w, gt.g)
    - target_count == list.len() && list_ok(gt.sel, gt.cnt, target_list@, list)
    - *has_forward_predecessor == gt.t.w && forward_predecessor_node@ == gt.t.pn && predecessor_arc@ == gt.t.pa && backward_head@ == gt.h().b.head
    - old(source_to_node_distance)@.len() >= gt.n() && old(output)@.len() >= list.len() && old(stack)@.len() == gt.n()
    - old(has_source_to_node_distance).wf() && old(has_source_to_node_distance).last_seen@.len() == gt.n()
  ensures
    - final(source_to_node_distance)@.len() == old(source_to_node_distance)@.len() && final(stack)@.len() == gt.n()
    - final(has_source_to_node_distance).wf() && final(has_source_to_node_distance).last_seen@.len() == gt.n()
    - final(output)@.len() == old(output)@.len()
    - forall|i: int| 0 <= i < list.len() ==> gt.right(list[i] as int, #[trigger] final(output)@[i])
  entry
    let ghost mut gp = Seq::<St>::empty(); let ghost mut gx = 0int; let ghost n = gt.n();
    proof { gt.lemma_facts(); }
  loop 0 before
    proof { gt.lemma_vals_none(*has_source_to_node_distance, source_to_node_distance@); }
  loop 0 invariant
    - 0 <= i <= target_count && target_count == list.len() && stack_size == 0 && nodes_on_stack_with_forward_precessor_count == 0
    - gt.vals(*has_source_to_node_distance, source_to_node_distance@) && stack@.len() == n
    - source_to_node_distance@.len() == old(source_to_node_distance)@.len() && output@.len() == old(output)@.len()
    - forall|j: int| 0 <= j < i ==> gt.right(list[j] as int, #[trigger] output@[j])
  loop 0 decreases target_count - i
  loop 0 begin
    proof { assert(target_list@[i as int] == list[i as int]); gt.lemma_start(list[i as int] as int); gt.lemma_vals(*has_source_to_node_distance, source_to_node_distance@, list[i as int] as int); }
    let ghost o0 = output@;
  loop 0 end
    proof { let z = list[i as int] as int; if gt.t.td[z] < INF() { gt.lemma_vals(*has_source_to_node_distance, source_to_node_distance@, z); gt.lemma_right(z, output@[i as int]); }
      assert forall|j: int| 0 <= j < i + 1 implies gt.right(list[j] as int, #[trigger] output@[j]) by { if j < i { assert(output@[j] == o0[j]); } } }
  loop 0 after
    proof { gt.lemma_vals_wf(*has_source_to_node_distance, source_to_node_distance@); }
  loop 1 before
    proof { gp = Seq::<St>::empty(); gx = x as int; gt.lemma_chn_none(*has_source_to_node_distance, stack@, t as int); }
  loop 1 invariant_except_break
    - !RETURNED && !has_source_to_node_distance.flag(x as int)
  loop 1 invariant
    - gt.upon(x as int, gp, t as int) && gx == x && nodes_on_stack_with_forward_precessor_count == 0 && stack@.len() == n
    - gt.chn(*has_source_to_node_distance, stack@, stack_size as int, 0, x as int, t as int)
  loop 1 ensures
    - RETURNED ==> has_source_to_node_distance.flag(x as int)
    - !RETURNED ==> !has_source_to_node_distance.flag(x as int) && gt.flag(x as int)
  loop 1 decreases gt.mu(x as int)
  loop 1 begin
    let ghost st0 = stack@; let ghost k0 = stack_size as int;
    proof { gp = gt.lemma_back(x as int, gp, t as int); gx = gt.par(x as int); gt.lemma_room(*has_source_to_node_distance, stack@, stack_size as int, 0, x as int, t as int);
      gt.lemma_chn_push(*has_source_to_node_distance, st0, k0, 0, x, t as int, st0.update(k0, x)); }
  loop 2 invariant_except_break
    - !RETURNED && !has_source_to_node_distance.flag(x as int)
  loop 2 invariant
    - gt.flag(x as int) && gt.upon(x as int, gp, t as int) && gx == x && stack@.len() == n
    - gt.chn(*has_source_to_node_distance, stack@, stack_size as int, nodes_on_stack_with_forward_precessor_count as int, x as int, t as int)
  loop 2 ensures
    - RETURNED ==> has_source_to_node_distance.flag(x as int)
    - !RETURNED ==> !has_source_to_node_distance.flag(x as int) && forward_predecessor_node@[x as int] == INV()
  loop 2 decreases gt.mu(x as int)
  loop 2 begin
    let ghost st0 = stack@; let ghost k0 = stack_size as int;
    proof { let f = nodes_on_stack_with_forward_precessor_count as int; gp = gt.lemma_back(x as int, gp, t as int); gx = gt.par(x as int); gt.lemma_room(*has_source_to_node_distance, stack@, k0, f, x as int, t as int);
      gt.lemma_chn_top(*has_source_to_node_distance, stack@, k0, f, x as int, t as int);
      gt.lemma_chn_push(*has_source_to_node_distance, st0, k0, f, x, t as int, st0.update(k0, x)); }
  loop 2 after
    proof { if !RETURNED { let u = gt.lemma_back(x as int, gp, t as int); gt.lemma_vals_root(*has_source_to_node_distance, source_to_node_distance@, x as int, source_to_node_distance@.update(x as int, 0u32)); gt.lemma_root(x as int); }
      gt.lemma_vals(*has_source_to_node_distance, source_to_node_distance@, x as int); }
  loop 3 before
    proof { gt.lemma_chn_top(*has_source_to_node_distance, stack@, stack_size as int, nodes_on_stack_with_forward_precessor_count as int, gx, t as int); gt.lemma_vals(*has_source_to_node_distance, source_to_node_distance@, gx); }
  loop 3 invariant
    - stack@.len() == n && gt.vals(*has_source_to_node_distance, source_to_node_distance@) && source_to_node_distance@.len() == old(source_to_node_distance)@.len()
    - gt.chn(*has_source_to_node_distance, stack@, stack_size as int, nodes_on_stack_with_forward_precessor_count as int, gx, t as int)
    - !has_source_to_node_distance.flag(gx) ==> gt.tp(gx).len() == 0
    - source_to_node_distance@[gx] == xw(gt.w, gt.tp(gx))
  loop 3 decreases stack_size
  loop 3 begin
    let ghost h0 = *has_source_to_node_distance; let ghost t0 = source_to_node_distance@; let ghost k0 = stack_size as int; let ghost f0 = nodes_on_stack_with_forward_precessor_count as int; let ghost y0 = stack@[k0 - 1] as int;
    proof { gt.lemma_chn_top(h0, stack@, k0, f0, gx, t as int); gt.lemma_val(y0); gt.lemma_vals(h0, t0, gx); gt.lemma_vals(h0, t0, y0); }
  loop 3 end
    proof { gt.lemma_pop(h0, t0, stack@, k0, f0, gx, t as int, y0, *has_source_to_node_distance, source_to_node_distance@); gx = y0; }
  loop 3 after
    proof { gt.lemma_chn_top(*has_source_to_node_distance, stack@, 0, nodes_on_stack_with_forward_precessor_count as int, gx, t as int); }
