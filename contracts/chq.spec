sharefield ContractionHierarchyQuery ch ContractionHierarchy

fn forward_can_stall_at_node
  ghost gh: H
  ghost gn: int
  requires
    - hwf(gh, gn) && node < gn
    - gh.b == (Up { fo: backward_first_out@, head: backward_head@, wt: backward_weight@ })
    - was_forward_pushed.wf() && was_forward_pushed.last_seen@.len() == gn
    - old(forward_tentative_distance)@.len() == gn
    - forall|v: int| 0 <= v < gn && #[trigger] was_forward_pushed.flag(v) ==> old(forward_tentative_distance)@[v] < INF()
  ensures
    - final(forward_tentative_distance)@ == old(forward_tentative_distance)@
    - r == exists|a: int| #[trigger] gh.b.arc(node as int, a) && was_forward_pushed.flag(gh.b.head[a] as int) && final(forward_tentative_distance)@[gh.b.head[a] as int] + gh.b.wt[a] <= final(forward_tentative_distance)@[node as int]
  loop 0 invariant
    - forward_tentative_distance@ == old(forward_tentative_distance)@
    - gh.b.fo[node as int] <= arc <= gh.b.fo[node + 1]
    - forall|a: int| #[trigger] gh.b.arc(node as int, a) && a < arc ==> !(was_forward_pushed.flag(gh.b.head[a] as int) && forward_tentative_distance@[gh.b.head[a] as int] + gh.b.wt[a] <= forward_tentative_distance@[node as int])
  loop 0 decreases gh.b.fo[node + 1] - arc
  loop 0 begin
    proof { assert(gh.b.arc(node as int, arc as int)); assert(gh.b.fo[node + 1] <= gh.b.fo[gn]); }

fn forward_settle_node
  attr verifier::spinoff_prover
  ghost gh: H
  ghost gn: int
  ghost gsrc: Map<int, int>
  ghost go: S
  requires
    - gh.f == (Up { fo: forward_first_out@, head: forward_head@, wt: forward_weight@ })
    - gh.b == (Up { fo: backward_first_out@, head: backward_head@, wt: backward_weight@ })
    - sd(*old(was_forward_pushed), *old(forward_queue), old(forward_tentative_distance)@, old(forward_predecessor_node)@, old(forward_predecessor_arc)@).inv(gh, gn, gsrc, true)
    - old(forward_queue).heap_size > 0
    - go.w == *was_backward_pushed && go.td == backward_tentative_distance@ && go.sized(gn) && go.small()
    - *old(shortest_path_length) <= INF()
    - met(&sd(*old(was_forward_pushed), *old(forward_queue), old(forward_tentative_distance)@, old(forward_predecessor_node)@, old(forward_predecessor_arc)@), &go, *old(shortest_path_length) as int)
    - cand(&sd(*old(was_forward_pushed), *old(forward_queue), old(forward_tentative_distance)@, old(forward_predecessor_node)@, old(forward_predecessor_arc)@), &go, *old(shortest_path_length) as int, *old(shortest_path_meeting_node) as int)
  ensures
    - sd(*final(was_forward_pushed), *final(forward_queue), final(forward_tentative_distance)@, final(forward_predecessor_node)@, final(forward_predecessor_arc)@).inv(gh, gn, gsrc, true)
    - sd(*final(was_forward_pushed), *final(forward_queue), final(forward_tentative_distance)@, final(forward_predecessor_node)@, final(forward_predecessor_arc)@).meas(gn) < sd(*old(was_forward_pushed), *old(forward_queue), old(forward_tentative_distance)@, old(forward_predecessor_node)@, old(forward_predecessor_arc)@).meas(gn)
    - *final(shortest_path_length) <= INF()
    - met(&sd(*final(was_forward_pushed), *final(forward_queue), final(forward_tentative_distance)@, final(forward_predecessor_node)@, final(forward_predecessor_arc)@), &go, *final(shortest_path_length) as int)
    - cand(&sd(*final(was_forward_pushed), *final(forward_queue), final(forward_tentative_distance)@, final(forward_predecessor_node)@, final(forward_predecessor_arc)@), &go, *final(shortest_path_length) as int, *final(shortest_path_meeting_node) as int)
  hide MinIDQueue::wf MinIDQueue::has MinIDQueue::key TimestampFlags::flag TimestampFlags::wf S::free
  entry
    let ghost s0 = sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@);
    proof { lemma_parts(&s0, gh, gn, gsrc, true, -1); }
  loop 0 before
    proof { lemma_pop(&s0, &sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@), gh, gn, gsrc, true, popped_node as int); assert(gh.f.fo[popped_node as int] <= gh.f.fo[popped_node + 1]); }
  loop 0 invariant
    - gh.f.fo[popped_node as int] <= arc <= gh.f.fo[popped_node + 1]
    - sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@).inv_but(gh, gn, gsrc, true, popped_node as int)
    - fence(&sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@), popped_node as int)
    - sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@).later(&s0)
    - sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@).meas(gn) < s0.meas(gn)
    - forward_tentative_distance@[popped_node as int] == distance_to_popped_node
    - forall|u: int| #[trigger] sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@).po(u) ==> s0.po(u) || u == popped_node
    - forall|a: int| #[trigger] gh.f.arc(popped_node as int, a) && a < arc ==> sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@).rel(gh.f, popped_node as int, a)
  loop 0 decreases gh.f.fo[popped_node + 1] - arc
  loop 0 begin
    let ghost s1 = sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@);
    proof { assert(gh.f.arc(popped_node as int, arc as int)); assert(gh.f.fo[popped_node + 1] <= gh.f.fo[gn]); lemma_parts(&s1, gh, gn, gsrc, true, popped_node as int); assert(s1.po(popped_node as int));
      let x = gh.f.head[arc as int] as int; if s1.pu(x) { assert(!s1.po(x) || s1.td[x] <= distance_to_popped_node); } }
  loop 0 end
    proof {
      let s2 = sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@);
      let v = popped_node as int;
      if s2 != s1 { assert(labelled(&s1, &s2, v, arc as int, gh.f.head[arc as int] as int, d)); lemma_label(&s1, &s2, gh, gn, gsrc, true, v, arc as int, d); }
      assert(s2.later(&s1));
      assert forall|a: int| #[trigger] gh.f.arc(v, a) && a < arc + 1 implies s2.rel(gh.f, v, a) by { if a < arc { assert(s1.rel(gh.f, v, a)); } }
    }
  loop 0 after
    proof { assert(sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@).relaxed(gh.f, popped_node as int)); }
  exit
    proof {
      let s3 = sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@);
      let v = popped_node as int;
      if popped_from(&s0, &s3, v) { lemma_pop(&s0, &s3, gh, gn, gsrc, true, v); }
      assert(s3.done(gh, true, v)) by {
        reveal(S::done);
        if !s3.relaxed(gh.f, v) {
          let a = choose|a: int| #[trigger] gh.b.arc(v, a) && s3.w.flag(gh.b.head[a] as int) && s3.td[gh.b.head[a] as int] + gh.b.wt[a] <= s3.td[v];
          assert(s3.stall(gh.b, v, a));
        }
      }
      lemma_done(&s3, gh, gn, gsrc, true, v);
      let m = *shortest_path_meeting_node as int; assert(s3.pu(v)); if m == v && go.w.flag(v) { assert(go.pu(v)); } if m != INV() && s0.pu(m) { assert(s3.pu(m)); }
      assert forall|u: int| #[trigger] s3.po(u) && #[trigger] go.po(u) implies *shortest_path_length <= s3.td[u] + go.td[u] by { if u != v { assert(s0.po(u)); } }
    }


fn full_forward_search
  attr verifier::spinoff_prover
  ghost gh: H
  ghost gn: int
  ghost gsrc: Map<int, int>
  requires
    - gh.f == mkup(forward_first_out@, forward_head@, forward_weight@)
    - sd(*old(was_forward_pushed), *old(forward_queue), old(forward_tentative_distance)@, old(forward_predecessor_node)@, old(forward_predecessor_arc)@).inv(gh, gn, gsrc, false)
  ensures
    - sd(*final(was_forward_pushed), *final(forward_queue), final(forward_tentative_distance)@, final(forward_predecessor_node)@, final(forward_predecessor_arc)@).inv(gh, gn, gsrc, false)
    - forall|u: int| !#[trigger] final(forward_queue).has(u)
    - final(forward_predecessor_node)@.len() == old(forward_predecessor_node)@.len()
  hide MinIDQueue::wf MinIDQueue::has MinIDQueue::key TimestampFlags::flag TimestampFlags::wf
  entry
    proof { lemma_parts(&sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@), gh, gn, gsrc, false, -1); }
  loop 0 invariant
    - sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@).inv(gh, gn, gsrc, false)
    - hwf(gh, gn)
    - forward_queue.wf()
    - forward_predecessor_node@.len() == old(forward_predecessor_node)@.len()
  loop 0 decreases sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@).meas(gn)
  loop 0 begin
    let ghost s0 = sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@);
    proof { lemma_parts(&s0, gh, gn, gsrc, false, -1); lemma_free(&s0, &s0, gn); }
  loop 1 before
    proof { lemma_pop(&s0, &sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@), gh, gn, gsrc, false, popped_node as int); assert(gh.f.fo[popped_node as int] <= gh.f.fo[popped_node + 1]); }
  loop 1 invariant
    - gh.f.fo[popped_node as int] <= arc <= gh.f.fo[popped_node + 1]
    - popped_node < gn
    - sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@).inv_but(gh, gn, gsrc, false, popped_node as int)
    - fence(&sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@), popped_node as int)
    - sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@).meas(gn) < s0.meas(gn)
    - forward_predecessor_node@.len() == old(forward_predecessor_node)@.len()
    - forward_tentative_distance@[popped_node as int] == distance_to_popped_node
    - forall|a: int| #[trigger] gh.f.arc(popped_node as int, a) && a < arc ==> sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@).rel(gh.f, popped_node as int, a)
  loop 1 decreases gh.f.fo[popped_node + 1] - arc
  loop 1 begin
    let ghost s1 = sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@);
    proof { assert(gh.f.arc(popped_node as int, arc as int)); assert(gh.f.fo[popped_node + 1] <= gh.f.fo[gn]); lemma_parts(&s1, gh, gn, gsrc, false, popped_node as int); assert(s1.po(popped_node as int));
      let x = gh.f.head[arc as int] as int; if s1.pu(x) { assert(!s1.po(x) || s1.td[x] <= distance_to_popped_node); } }
  loop 1 end
    proof {
      let s2 = sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@);
      let v = popped_node as int;
      if s2 != s1 { assert(labelled(&s1, &s2, v, arc as int, gh.f.head[arc as int] as int, d)); lemma_label(&s1, &s2, gh, gn, gsrc, false, v, arc as int, d); }
      assert(s2.later(&s1));
      assert forall|a: int| #[trigger] gh.f.arc(v, a) && a < arc + 1 implies s2.rel(gh.f, v, a) by { if a < arc { assert(s1.rel(gh.f, v, a)); } }
    }
  loop 1 after
    proof { let s3 = sd(*was_forward_pushed, *forward_queue, forward_tentative_distance@, forward_predecessor_node@, forward_predecessor_arc@); let v = popped_node as int; assert(s3.relaxed(gh.f, v)); assert(s3.done(gh, false, v)) by { reveal(S::done); } lemma_done(&s3, gh, gn, gsrc, false, v); lemma_parts(&s3, gh, gn, gsrc, false, -1); lemma_free(&s3, &s3, gn); }

fn pin
  attr verifier::spinoff_prover
  ghost gy: Up
  ghost gn: int
  requires
    - gy == mkup(backward_first_out@, backward_head@, backward_weight@)
    - gy.wf(gn) && gn >= 0
    - external_node_to_internal_node@.len() == gn && forall|v: int| 0 <= v < gn ==> #[trigger] external_node_to_internal_node@[v] < gn
    - external_target_list@.len() <= 0xFFFF_FFFF && forall|i: int| 0 <= i < external_target_list@.len() ==> #[trigger] external_target_list@[i] < gn
    - old(q).wf() && old(q).n() == gn && old(q).heap_size == 0
    - old(select_list)@.len() == gn
  ensures
    - final(q).wf() && final(q).n() == gn && forall|i: int| !#[trigger] final(q).has(i)
    - final(select_list)@.len() == gn
    - *final(target_count) == external_target_list@.len()
    - final(target_list)@.len() >= old(target_list)@.len()
    - sel_ok(gy, gn, final(select_list)@, *final(select_count) as int)
    - list_ok(final(select_list)@, *final(select_count) as int, final(target_list)@, inner_list(external_node_to_internal_node@, external_target_list@))
  hide MinIDQueue::wf MinIDQueue::has MinIDQueue::key
  entry
    let ghost lst = inner_list(external_node_to_internal_node@, external_target_list@);
    proof { assert(forall|i: int| !#[trigger] q.has(i)) by { lemma_empty_queue(q); } }
  loop 0 invariant
    - i <= *target_count && *target_count == external_target_list@.len()
    - target_list@.len() >= *target_count && target_list@.len() >= old(target_list)@.len()
    - q.wf() && q.n() == gn
    - forall|v: int| #[trigger] q.has(v) ==> 0 <= v < gn && q.key(v) == v
    - forall|k: int| 0 <= k < i ==> #[trigger] target_list@[k] == lst[k] && q.has(lst[k] as int)
    - select_list@.len() == gn
  loop 0 decreases *target_count - i
  loop 0 begin
    let ghost q0 = *q; let ghost tl0 = target_list@;
    proof { assert(lst[i as int] == external_node_to_internal_node@[external_target_list@[i as int] as int]); }
  loop 0 end
    proof { assert(target_list@ == tl0.update(i as int, lst[i as int])); assert forall|v: int| #[trigger] q0.has(v) implies q.has(v) by { } assert(q.has(lst[i as int] as int)); assert forall|k: int| 0 <= k < i + 1 implies #[trigger] target_list@[k] == lst[k] && q.has(lst[k] as int) by { if k < i { assert(tl0[k] == lst[k]); } } }
  loop 1 before
    proof { assert forall|k: int| 0 <= k < lst.len() implies q.has(#[trigger] lst[k] as int) by { assert(target_list@[k] == lst[k]); } }
  loop 1 invariant
    - q.wf() && q.n() == gn && select_list@.len() == gn
    - *select_count <= gn
    - forall|v: int| #[trigger] q.has(v) ==> *select_count <= v < gn && q.key(v) == v
    - forall|k: int, v: int| 0 <= k < *select_count && #[trigger] q.has(v) ==> #[trigger] select_list@[k] < v
    - forall|k: int| 0 <= k < *select_count ==> #[trigger] select_list@[k] < gn
    - forall|k: int, j: int| 0 <= k < j < *select_count ==> #[trigger] select_list@[k] < #[trigger] select_list@[j]
    - forall|k: int, a: int| 0 <= k < *select_count && #[trigger] gy.arc(#[trigger] select_list@[k] as int, a) ==> insel(select_list@, *select_count as int, gy.head[a] as int) || q.has(gy.head[a] as int)
    - forall|k: int| 0 <= k < lst.len() ==> insel(select_list@, *select_count as int, #[trigger] lst[k] as int) || q.has(lst[k] as int)
  loop 1 decreases gn - *select_count
  loop 1 begin
    let ghost q2 = *q; let ghost c2 = *select_count as int; let ghost l2 = select_list@;
  loop 2 before
    proof {
      assert(select_list@ == l2.update(c2, x)); assert(*select_count == c2 + 1); assert(gy.fo[x as int] <= gy.fo[x + 1]);
      assert forall|v: int| insel(l2, c2, v) implies #[trigger] insel(select_list@, c2 + 1, v) by { let k = choose|k: int| 0 <= k < c2 && #[trigger] l2[k] == v; assert(select_list@[k] == v); }
      assert(insel(select_list@, c2 + 1, x as int)) by { assert(select_list@[c2] == x); }
      assert forall|k: int, a: int| 0 <= k < *select_count && #[trigger] gy.arc(#[trigger] select_list@[k] as int, a) && select_list@[k] != x implies insel(select_list@, *select_count as int, gy.head[a] as int) || q.has(gy.head[a] as int) by {
        assert(l2[k] == select_list@[k]); assert(gy.arc(l2[k] as int, a)); assert(q2.has(gy.head[a] as int) ==> q.has(gy.head[a] as int) || gy.head[a] == x);
      }
      assert forall|k: int| 0 <= k < lst.len() implies insel(select_list@, *select_count as int, #[trigger] lst[k] as int) || q.has(lst[k] as int) by { assert(q2.has(lst[k] as int) ==> q.has(lst[k] as int) || lst[k] == x); }
      assert forall|v: int| #[trigger] q.has(v) implies x < v < gn && q.key(v) == v by { assert(q2.has(v)); }
    }
  loop 2 invariant
    - gy.fo[x as int] <= xy <= gy.fo[x + 1] && x < gn
    - q.wf() && q.n() == gn && select_list@ == l2.update(c2, x) && *select_count == c2 + 1
    - forall|v: int| #[trigger] q.has(v) ==> x < v < gn && q.key(v) == v
    - forall|k: int| 0 <= k < lst.len() ==> insel(select_list@, *select_count as int, #[trigger] lst[k] as int) || q.has(lst[k] as int)
    - forall|k: int, a: int| 0 <= k < *select_count && #[trigger] gy.arc(#[trigger] select_list@[k] as int, a) && (select_list@[k] != x || a < xy) ==> insel(select_list@, *select_count as int, gy.head[a] as int) || q.has(gy.head[a] as int)
  loop 2 decreases gy.fo[x + 1] - xy
  loop 2 begin
    proof { assert(gy.arc(x as int, xy as int)); assert(gy.fo[x + 1] <= gy.fo[gn]); }
    let ghost q3 = *q;
  loop 2 end
    proof { assert forall|v: int| #[trigger] q3.has(v) implies q.has(v) by { } }
  loop 1 after
    let ghost l4 = select_list@; let ghost c4 = *select_count as int;
    proof { assert(forall|i: int| !#[trigger] q.has(i)); }
  exit
    proof {
      let sel = select_list@;
      assert forall|v: int| #[trigger] insel(l4, c4, v) implies insel(sel, c4, v) by { let k = choose|k: int| 0 <= k < c4 && #[trigger] l4[k] == v; assert(sel[c4 - 1 - k] == v); }
      assert forall|i: int| 0 <= i < c4 implies #[trigger] sel[i] < gn by { assert(sel[i] == l4[c4 - 1 - i]); }
      assert forall|i: int, j: int| 0 <= i < j < c4 implies #[trigger] sel[i] > #[trigger] sel[j] by { assert(l4[c4 - 1 - j] < l4[c4 - 1 - i]); }
      assert forall|i: int, a: int| 0 <= i < c4 && #[trigger] gy.arc(#[trigger] sel[i] as int, a) implies insel(sel, c4, gy.head[a] as int) by { assert(gy.arc(l4[c4 - 1 - i] as int, a)); assert(insel(l4, c4, gy.head[a] as int)); }
      assert forall|i: int| 0 <= i < lst.len() implies #[trigger] target_list@[i] == lst[i] && insel(sel, c4, lst[i] as int) by { assert(insel(l4, c4, lst[i] as int)); }
    }

fn pinned_run
  attr verifier::spinoff_prover
  ghost gh: H
  ghost gn: int
  ghost gsrc: Map<int, int>
  requires
    - gh.f == mkup(forward_first_out@, forward_head@, forward_weight@)
    - gh.b == mkup(backward_first_out@, backward_head@, backward_weight@)
    - sd(*old(has_forward_predecessor), *old(forward_queue), old(tentative_distance)@, old(forward_predecessor_node)@, old(predecessor_arc)@).inv(gh, gn, gsrc, false)
    - sel_ok(gh.b, gn, old(select_list)@, *old(select_count) as int)
    - ud(gh)
  ensures
    - final(select_list)@ == old(select_list)@ && *final(select_count) == *old(select_count)
    - sd(*final(has_forward_predecessor), *final(forward_queue), final(tentative_distance)@, final(forward_predecessor_node)@, final(predecessor_arc)@).sized(gn)
    - final(forward_predecessor_node)@.len() == old(forward_predecessor_node)@.len()
    - exists|s: S| #[trigger] s.inv(gh, gn, gsrc, false) && (forall|u: int| !#[trigger] s.q.has(u)) && s.pn == final(forward_predecessor_node)@ && swept_all(&s, gh, gsrc, sd(*final(has_forward_predecessor), *final(forward_queue), final(tentative_distance)@, final(forward_predecessor_node)@, final(predecessor_arc)@), final(select_list)@, *final(select_count) as int)
  hide MinIDQueue::wf MinIDQueue::has MinIDQueue::key TimestampFlags::flag TimestampFlags::wf
  entry
    proof { lemma_parts(&sd(*has_forward_predecessor, *forward_queue, tentative_distance@, forward_predecessor_node@, predecessor_arc@), gh, gn, gsrc, false, -1); }
  loop 0 before
    let ghost s = sd(*has_forward_predecessor, *forward_queue, tentative_distance@, forward_predecessor_node@, predecessor_arc@);
    proof { lemma_parts(&s, gh, gn, gsrc, false, -1);
      assert forall|v: int| 0 <= v < gn && s.w.flag(v) implies #[trigger] s.pu(v) by { } }
  loop 0 invariant
    - i <= *select_count
    - select_list@ == old(select_list)@ && *select_count == *old(select_count)
    - sd(*has_forward_predecessor, *forward_queue, tentative_distance@, forward_predecessor_node@, predecessor_arc@).sized(gn)
    - *forward_queue == s.q && forward_predecessor_node@ == s.pn
    - forall|k: int| 0 <= k < i ==> swept(&s, gh, gsrc, tentative_distance@, #[trigger] select_list@[k] as int) && traced(&s, gh, tentative_distance@, has_forward_predecessor, predecessor_arc@, select_list@[k] as int)
    - unswept(&s, gn, has_forward_predecessor, tentative_distance@, predecessor_arc@, select_list@, i as int)
  loop 0 decreases *select_count - i
  loop 0 begin
    let ghost td1 = tentative_distance@; let ghost w1 = *has_forward_predecessor; let ghost pa1 = predecessor_arc@; let ghost x1 = select_list@[i as int] as int;
    proof {
      assert(!insel(select_list@, i as int, x1)) by { if insel(select_list@, i as int, x1) { let k = choose|k: int| 0 <= k < i && #[trigger] select_list@[k] == x1; assert(select_list@[k] > select_list@[i as int]); } }
      assert forall|a: int| #[trigger] gh.b.arc(x1, a) implies insel(select_list@, i as int, gh.b.head[a] as int) && td1[gh.b.head[a] as int] <= INF() && (td1[gh.b.head[a] as int] < INF() ==> reach(gh, gsrc, gh.b.head[a] as int, td1[gh.b.head[a] as int] as int)) by {
        assert(gh.b.arc(select_list@[i as int] as int, a));
        let k = choose|k: int| 0 <= k < *select_count && #[trigger] select_list@[k] == gh.b.head[a];
        if k >= i { if k > i { assert(select_list@[i as int] > select_list@[k]); } assert(false); }
        assert(swept(&s, gh, gsrc, td1, select_list@[k] as int));
      }
      assert(has_forward_predecessor.flag(x1) == s.w.flag(x1));
      if s.w.flag(x1) { assert(s.pu(x1)); lemma_upper(&s, gh, gn, gsrc, false, -1, x1); }
      assert(gh.b.fo[x1] <= gh.b.fo[x1 + 1]);
    }
  loop 1 before
    let ghost d1 = dist;
  loop 1 invariant
    - gh.b.fo[x1] <= xy <= gh.b.fo[x1 + 1] && x == x1
    - dist <= d1
    - forall|a: int| #[trigger] gh.b.arc(x1, a) && a < xy ==> dist <= td1[gh.b.head[a] as int] + gh.b.wt[a]
    - pred == INV() ==> dist == d1
    - pred != INV() ==> gh.b.arc(x1, pred as int) && dist == td1[gh.b.head[pred as int] as int] + gh.b.wt[pred as int] && dist < d1
  loop 1 decreases gh.b.fo[x1 + 1] - xy
  loop 1 begin
    proof { assert(gh.b.arc(x1, xy as int)); assert(gh.b.fo[x1 + 1] <= gh.b.fo[gn]); }
  loop 0 end
    proof {
      let td2 = tentative_distance@;
      assert(td2 == td1 || td2 == td1.update(x1, dist)); assert(td2[x1] == dist);
      if pred != INV() {
        let y = gh.b.head[pred as int] as int;
        let e = St { u: y, v: x1, w: gh.b.wt[pred as int] as int, a: pred as int };
        assert(ups(gh.b, rs(e))); assert(step(gh, e));
        reach_step(gh, gsrc, td1[y] as int, e);
      }
      assert(forall|v: int| 0 <= v < gn && v != x1 ==> td2[v] == td1[v]);
      assert forall|v: int| 0 <= v < gn && v != x1 implies #[trigger] has_forward_predecessor.flag(v) == w1.flag(v) && predecessor_arc@[v] == pa1[v] by { }
      assert forall|a: int| #[trigger] gh.b.arc(x1, a) implies td2[x1] <= td2[gh.b.head[a] as int] + gh.b.wt[a] by { }
      assert(swept(&s, gh, gsrc, td2, x1));
      assert(traced(&s, gh, td2, has_forward_predecessor, predecessor_arc@, x1));
      assert forall|k: int| 0 <= k < i + 1 implies swept(&s, gh, gsrc, td2, #[trigger] select_list@[k] as int) && traced(&s, gh, td2, has_forward_predecessor, predecessor_arc@, select_list@[k] as int) by {
        if k < i {
          let z = select_list@[k] as int;
          assert(select_list@[k] > select_list@[i as int]);
          assert(swept(&s, gh, gsrc, td1, z) && traced(&s, gh, td1, &w1, pa1, z));
          assert(has_forward_predecessor.flag(z) == w1.flag(z));
          assert forall|a: int| #[trigger] gh.b.arc(z, a) implies gh.b.head[a] != x1 && 0 <= gh.b.head[a] < gn by { }
        }
      }
      assert(unswept(&s, gn, has_forward_predecessor, td2, predecessor_arc@, select_list@, i + 1)) by {
        assert forall|v: int| 0 <= v < gn && !insel(select_list@, i + 1, v) implies (#[trigger] has_forward_predecessor.flag(v) == s.w.flag(v)) && td2[v] == s.td[v] && predecessor_arc@[v] == s.pa[v] by {
          assert(v != x1) by { if v == x1 { assert(select_list@[i as int] == v); } }
          assert(!insel(select_list@, i as int, v)) by { if insel(select_list@, i as int, v) { let k = choose|k: int| 0 <= k < i && #[trigger] select_list@[k] == v; assert(select_list@[k] == v); } }
          assert(w1.flag(v) == s.w.flag(v)); assert(td1[v] == s.td[v]); assert(pa1[v] == s.pa[v]); assert(has_forward_predecessor.flag(v) == w1.flag(v));
        }
      }
    }
  loop 0 after
    proof { assert(swept_all(&s, gh, gsrc, sd(*has_forward_predecessor, *forward_queue, tentative_distance@, forward_predecessor_node@, predecessor_arc@), select_list@, *select_count as int)) by {
      assert forall|v: int| #[trigger] s.pu(v) && !insel(select_list@, *select_count as int, v) implies tentative_distance@[v] == s.td[v] && has_forward_predecessor.flag(v) && predecessor_arc@[v] == s.pa[v] by { assert(has_forward_predecessor.flag(v) == s.w.flag(v)); } }
      assert(s.inv(gh, gn, gsrc, false)); }

fn ContractionHierarchyQuery::ContractionHierarchyQuery sig=/ContractionHierarchy &/ rust=/Query_new/
  ret r
  requires
    - ch.wf()
  ensures
    - r.ch.val() == *ch
    - r.ready()
    - r.f().map() == no_ends() && r.b().map() == no_ends()
    - r.shortest_path_meeting_node == INV()
  exit
    proof { lemma_no_ends(this.forward_queue); lemma_no_ends(this.backward_queue); }

fn ContractionHierarchyQuery::reset sig=/\(\)/ rust=/Query_reset0/
  requires
    - old(this).shape()
  ensures
    - final(this).ch == old(this).ch
    - final(this).ready()
    - final(this).f().map() == no_ends() && final(this).b().map() == no_ends()
    - final(this).shortest_path_meeting_node == INV()
  exit
    proof { lemma_no_ends(this.forward_queue); lemma_no_ends(this.backward_queue); }

fn ContractionHierarchyQuery::reset sig=/ContractionHierarchy &/ rust=/Query_reset/
  requires
    - old(this).f().sized(old(this).forward_tentative_distance@.len() as int) && old(this).b().sized(old(this).forward_tentative_distance@.len() as int)
    - new_ch.wf()
  ensures
    - final(this).ch.val() == *new_ch
    - final(this).ready()
    - final(this).f().map() == no_ends() && final(this).b().map() == no_ends()

fn ContractionHierarchyQuery::add_source
  requires
    - old(this).shape() && old(this).f().fresh(old(this).n())
    - old(this).state == 0 || old(this).state == 4
    - external_s < old(this).n() && dist_to_s < INF()
  ensures
    - final(this).ch == old(this).ch && final(this).shape() && final(this).state == old(this).state
    - final(this).f().fresh(old(this).n())
    - final(this).f().map() == with_end(old(this).f().map(), old(this).c().rank@[external_s as int] as int, dist_to_s as int)
    - final(this).f().q.heap_size > 0
    - final(this).b() == old(this).b() && final(this).shortest_path_meeting_node == old(this).shortest_path_meeting_node && final(this).many_to_many_source_or_target_count == old(this).many_to_many_source_or_target_count
  exit
    proof {
      let x = this.c().rank@[external_s as int] as int;
      assert(this.f().q.has(x));
      if old(this).f().q.has(x) { assert(old(this).f().pu(x)); }
      assert(added(&old(this).f(), &this.f(), x, dist_to_s));
      lemma_added(&old(this).f(), &this.f(), this.n(), x, dist_to_s);
      assert(this.f().sized(this.n()));
    }

fn ContractionHierarchyQuery::add_target
  requires
    - old(this).shape() && old(this).b().fresh(old(this).n())
    - old(this).state == 0 || old(this).state == 2
    - external_t < old(this).n() && dist_to_t < INF()
  ensures
    - final(this).ch == old(this).ch && final(this).shape() && final(this).state == old(this).state
    - final(this).b().fresh(old(this).n())
    - final(this).b().map() == with_end(old(this).b().map(), old(this).c().rank@[external_t as int] as int, dist_to_t as int)
    - final(this).b().q.heap_size > 0
    - final(this).f() == old(this).f() && final(this).shortest_path_meeting_node == old(this).shortest_path_meeting_node && final(this).many_to_many_source_or_target_count == old(this).many_to_many_source_or_target_count
  exit
    proof {
      let x = this.c().rank@[external_t as int] as int;
      assert(this.b().q.has(x));
      if old(this).b().q.has(x) { assert(old(this).b().pu(x)); }
      assert(added(&old(this).b(), &this.b(), x, dist_to_t));
      lemma_added(&old(this).b(), &this.b(), this.n(), x, dist_to_t);
      assert(this.b().sized(this.n()));
    }

fn ContractionHierarchyQuery::run
  attr verifier::spinoff_prover
  callghost forward_settle_node gh /mut this.forward_queue/ h
  callghost forward_settle_node gh /mut this.backward_queue/ rev(h)
  callghost forward_settle_node gsrc /mut this.forward_queue/ src
  callghost forward_settle_node gsrc /mut this.backward_queue/ tgt
  callghost forward_settle_node go /mut this.forward_queue/ this.b()
  callghost forward_settle_node go /mut this.backward_queue/ this.f()
  callghost forward_settle_node gn /./ n
  requires
    - old(this).ready()
    - old(this).f().q.heap_size > 0 && old(this).b().q.heap_size > 0
  ensures
    - final(this).ch == old(this).ch
    - final(this).ran(old(this).f().map(), old(this).b().map())
  hide MinIDQueue::wf MinIDQueue::has MinIDQueue::key TimestampFlags::flag TimestampFlags::wf S::free
  entry
    let ghost h = this.h(); let ghost n = this.n(); let ghost src = this.f().map(); let ghost tgt = this.b().map();
    proof { lemma_fresh(&this.f(), h, n, true); lemma_fresh(&this.b(), rev(h), n, true); }
  loop 0 invariant
    - this.ch == old(this).ch && this.shape() && this.h() == h && this.n() == n
    - this.f().inv(h, n, src, true) && this.b().inv(rev(h), n, tgt, true)
    - shortest_path_length <= INF()
    - met(&this.f(), &this.b(), shortest_path_length as int) && cand(&this.f(), &this.b(), shortest_path_length as int, this.shortest_path_meeting_node as int)
  loop 0 ensures
    - beyond(&this.f(), shortest_path_length as int) && beyond(&this.b(), shortest_path_length as int)
  loop 0 decreases this.f().meas(n) + this.b().meas(n)
  loop 0 begin
    proof { lemma_parts(&this.f(), h, n, src, true, -1); lemma_parts(&this.b(), rev(h), n, tgt, true, -1); lemma_met_sym(&this.f(), &this.b(), shortest_path_length as int, this.shortest_path_meeting_node as int); lemma_free(&this.f(), &this.f(), n); lemma_free(&this.b(), &this.b(), n); }
  loop 0 end
    proof { lemma_parts(&this.f(), h, n, src, true, -1); lemma_parts(&this.b(), rev(h), n, tgt, true, -1); lemma_met_sym(&this.f(), &this.b(), shortest_path_length as int, this.shortest_path_meeting_node as int); lemma_free(&this.f(), &this.f(), n); lemma_free(&this.b(), &this.b(), n); }
  exit
    proof { lemma_result(&this.f(), &this.b(), h, n, src, tgt, shortest_path_length as int, this.shortest_path_meeting_node as int); }

fn ContractionHierarchyQuery::get_distance
  ghost src: Map<int, int>
  ghost tgt: Map<int, int>
  requires
    - old(this).ran(src, tgt)
  ensures
    - *final(this) == *old(this)
    - shortest(old(this).h(), src, tgt, r as int)

fn ContractionHierarchyQuery::get_used_source
  ghost src: Map<int, int>
  ghost tgt: Map<int, int>
  requires
    - old(this).ran(src, tgt)
  ensures
    - *final(this) == *old(this)
    - r == INV() <==> old(this).dist() == INF()
    - r != INV() ==> r < old(this).n() && used_source(old(this).h(), src, tgt, old(this).c().rank@[r as int] as int, old(this).dist())
  entry
    let ghost h = this.h(); let ghost n = this.n(); let ghost m = this.shortest_path_meeting_node as int; let ghost mut p = Seq::<St>::empty(); let ghost d = this.dist();
    proof { lemma_parts(&this.f(), h, n, src, true, -1); lemma_parts(&this.b(), rev(h), n, tgt, true, -1); if m != INV() { lemma_upper(&this.b(), rev(h), n, tgt, true, -1, m); } }
  loop 0 invariant
    - *this == *old(this)
    - this.f().pu(x as int) && up(h.f, p, x as int, m) && this.f().td[x as int] + wl(p) == this.f().td[m]
  loop 0 decreases x
  loop 0 begin
    proof { p = lemma_trace(&this.f(), h, n, src, true, m, x as int, p); }
  loop 0 after
    proof { assert(rev(rev(h)) == h); lemma_used(&this.f(), h, n, src, tgt, m, this.b().td[m] as int, x as int, p);  }

fn ContractionHierarchyQuery::get_used_target
  ghost src: Map<int, int>
  ghost tgt: Map<int, int>
  requires
    - old(this).ran(src, tgt)
  ensures
    - *final(this) == *old(this)
    - r == INV() <==> old(this).dist() == INF()
    - r != INV() ==> r < old(this).n() && used_target(old(this).h(), src, tgt, old(this).c().rank@[r as int] as int, old(this).dist())
  entry
    let ghost h = this.h(); let ghost n = this.n(); let ghost m = this.shortest_path_meeting_node as int; let ghost mut p = Seq::<St>::empty(); let ghost d = this.dist();
    proof { lemma_parts(&this.f(), h, n, src, true, -1); lemma_parts(&this.b(), rev(h), n, tgt, true, -1); if m != INV() { lemma_upper(&this.f(), h, n, src, true, -1, m); } }
  loop 0 invariant
    - *this == *old(this)
    - this.b().pu(x as int) && up(rev(h).f, p, x as int, m) && this.b().td[x as int] + wl(p) == this.b().td[m]
  loop 0 decreases x
  loop 0 begin
    proof { p = lemma_trace(&this.b(), rev(h), n, tgt, true, m, x as int, p); }
  loop 0 after
    proof { assert(rev(rev(h)) == h); lemma_used(&this.b(), rev(h), n, tgt, src, m, this.f().td[m] as int, x as int, p); lemma_used_rev(h, src, tgt, x as int, old(this).dist()); }

fn ContractionHierarchyQuery::reset_source
  ghost list: Seq<u32>
  requires
    - old(this).pinned_t(list) && (old(this).state == 4 || old(this).state == 5)
  ensures
    - final(this).ch == old(this).ch && final(this).pinned_t(list) && final(this).state == 4
    - final(this).f().fresh(old(this).n()) && final(this).f().map() == no_ends() && final(this).b() == old(this).b()
  exit
    proof { lemma_no_ends(this.forward_queue); }

fn ContractionHierarchyQuery::pin_targets
  callghost pin gy /./ this.h().b
  callghost pin gn /./ this.n()
  requires
    - old(this).ready() && old(this).backward_queue.heap_size == 0
    - external_target_list@.len() <= 0xFFFF_FFFF && forall|i: int| 0 <= i < external_target_list@.len() ==> #[trigger] external_target_list@[i] < old(this).n()
  ensures
    - final(this).ch == old(this).ch && final(this).state == 4
    - final(this).pinned_t(inner_list(old(this).c().rank@, external_target_list@))
    - final(this).f() == old(this).f()

fn ContractionHierarchyQuery::run_to_pinned_targets
  attr verifier::spinoff_prover
  ghost list: Seq<u32>
  callghost pinned_run gh /./ this.h()
  callghost pinned_run gn /./ this.n()
  callghost pinned_run gsrc /./ this.f().map()
  requires
    - old(this).pinned_t(list) && old(this).state == 4
    - old(this).f().fresh(old(this).n()) && old(this).forward_queue.heap_size > 0
  ensures
    - final(this).ch == old(this).ch
    - exists|s: S| #[trigger] final(this).ran_t(old(this).f().map(), list, s)
  hide MinIDQueue::wf MinIDQueue::has MinIDQueue::key TimestampFlags::flag TimestampFlags::wf
  entry
    proof { lemma_fresh(&this.f(), this.h(), this.n(), false);  }
  exit
    proof { let src = old(this).f().map(); let hh = this.h();
      let s = choose|s: S| #[trigger] s.inv(hh, this.n(), src, false) && (forall|u: int| !#[trigger] s.q.has(u)) && s.pn == this.forward_predecessor_node@ && swept_all(&s, hh, src, this.f(), this.backward_tentative_distance@, this.cnt());
      assert(this.ran_t(src, list, s)); }

fn ContractionHierarchyQuery::get_distances_to_targets sig=/\(\)/ rust=/Query_distances_t/
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  requires
    - old(this).ran_t(src, list, s)
  ensures
    - *final(this) == *old(this)
    - r@.len() == list.len()
    - forall|i: int| 0 <= i < list.len() ==> nearest(old(this).h(), src, list[i] as int, #[trigger] r@[i] as int)
  exit
    proof {  assert forall|i: int| 0 <= i < list.len() implies nearest(this.h(), src, list[i] as int, #[trigger] r@[i] as int) by {
      assert(this.backward_predecessor_node@[i] == list[i]);
      lemma_nearest(&s, this.h(), this.n(), src, this.forward_tentative_distance@, this.backward_tentative_distance@, this.cnt(), list[i] as int); } }

fn ContractionHierarchyQuery::reset_target
  ghost list: Seq<u32>
  requires
    - old(this).pinned_s(list) && (old(this).state == 2 || old(this).state == 3)
  ensures
    - final(this).ch == old(this).ch && final(this).pinned_s(list) && final(this).state == 2
    - final(this).b().fresh(old(this).n()) && final(this).b().map() == no_ends() && final(this).f() == old(this).f()
  exit
    proof { lemma_no_ends(this.backward_queue); }

fn ContractionHierarchyQuery::pin_sources
  callghost pin gy /./ this.h().f
  callghost pin gn /./ this.n()
  requires
    - old(this).ready() && old(this).forward_queue.heap_size == 0
    - external_source_list@.len() <= 0xFFFF_FFFF && forall|i: int| 0 <= i < external_source_list@.len() ==> #[trigger] external_source_list@[i] < old(this).n()
  ensures
    - final(this).ch == old(this).ch && final(this).state == 2
    - final(this).pinned_s(inner_list(old(this).c().rank@, external_source_list@))
    - final(this).b() == old(this).b()

fn ContractionHierarchyQuery::run_to_pinned_sources
  attr verifier::spinoff_prover
  ghost list: Seq<u32>
  callghost pinned_run gh /./ rev(this.h())
  callghost pinned_run gn /./ this.n()
  callghost pinned_run gsrc /./ this.b().map()
  requires
    - old(this).pinned_s(list) && old(this).state == 2
    - old(this).b().fresh(old(this).n()) && old(this).backward_queue.heap_size > 0
  ensures
    - final(this).ch == old(this).ch
    - exists|s: S| #[trigger] final(this).ran_s(old(this).b().map(), list, s)
  hide MinIDQueue::wf MinIDQueue::has MinIDQueue::key TimestampFlags::flag TimestampFlags::wf
  entry
    proof { lemma_fresh(&this.b(), rev(this.h()), this.n(), false); lemma_ud_rev(this.h()); }
  exit
    proof { let src = old(this).b().map(); let hh = rev(this.h());
      let s = choose|s: S| #[trigger] s.inv(hh, this.n(), src, false) && (forall|u: int| !#[trigger] s.q.has(u)) && s.pn == this.backward_predecessor_node@ && swept_all(&s, hh, src, this.b(), this.forward_tentative_distance@, this.cnt());
      assert(this.ran_s(src, list, s)); }

fn ContractionHierarchyQuery::get_distances_to_sources sig=/\(\)/ rust=/Query_distances_s/
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  requires
    - old(this).ran_s(src, list, s)
  ensures
    - *final(this) == *old(this)
    - r@.len() == list.len()
    - forall|i: int| 0 <= i < list.len() ==> nearest(rev(old(this).h()), src, list[i] as int, #[trigger] r@[i] as int)
  exit
    proof { lemma_ud_rev(this.h()); assert forall|i: int| 0 <= i < list.len() implies nearest(rev(this.h()), src, list[i] as int, #[trigger] r@[i] as int) by {
      assert(this.forward_predecessor_node@[i] == list[i]);
      lemma_nearest(&s, rev(this.h()), this.n(), src, this.backward_tentative_distance@, this.forward_tentative_distance@, this.cnt(), list[i] as int); } }

fn extract_distances_to_targets sig=/unsigned int \*/ rust=/extract_p/
  pointers dist into buf
  requires
    - target_count <= target_list@.len() && dist + target_count <= old(buf)@.len() <= 0xFFFF_FFFF_FFFF_FFFF
    - forall|i: int| 0 <= i < target_count ==> #[trigger] target_list@[i] < forward_tentative_distance@.len()
  ensures
    - final(buf)@.len() == old(buf)@.len()
    - forall|k: int| dist <= k < dist + target_count ==> #[trigger] final(buf)@[k] == forward_tentative_distance@[target_list@[k - dist] as int]
  loop 0 invariant
    - i <= target_count && buf@.len() == old(buf)@.len() && dist == dist_0
    - forall|k: int| dist <= k < dist + i ==> #[trigger] buf@[k] == forward_tentative_distance@[target_list@[k - dist] as int]
  loop 0 decreases target_count - i
  loop 0 begin
    let ghost b0 = buf@;
  loop 0 end
    proof { assert forall|k: int| dist <= k < dist + i + 1 implies #[trigger] buf@[k] == forward_tentative_distance@[target_list@[k - dist] as int] by { if k < dist + i { assert(buf@[k] == b0[k]); assert(b0[k] == forward_tentative_distance@[target_list@[k - dist] as int]); } else { assert(k - dist == i); assert(buf@[k] == forward_tentative_distance@[target_list@[i as int] as int]); } } }

fn internal_get_used_sources_to_targets
  attr verifier::spinoff_prover
  pointers output into buf
  ghost gh: H
  ghost gn: int
  ghost gsrc: Map<int, int>
  ghost gs: S
  ghost gt: S
  ghost gsel: Seq<u32>
  ghost gcnt: int
  requires
    - after_sweep(&gs, gh, gn, gsrc, gt, gsel, gcnt)
    - gt.w == *has_forward_predecessor && gt.pn == forward_predecessor_node@ && gt.pa == predecessor_arc@ && gh.b.head == backward_head@
    - ch_order@.len() == gn
    - target_count <= target_list@.len() && output + target_count <= old(buf)@.len() <= 0xFFFF_FFFF_FFFF_FFFF
    - forall|i: int| 0 <= i < target_count ==> insel(gsel, gcnt, #[trigger] target_list@[i] as int)
  ensures
    - final(buf)@.len() == old(buf)@.len()
    - forall|k: int| output <= k < output + target_count ==> used_to(gh, gsrc, ch_order@, target_list@[k - output] as int, gt.td[target_list@[k - output] as int] as int, #[trigger] final(buf)@[k])
  hide MinIDQueue::wf MinIDQueue::has MinIDQueue::key TimestampFlags::flag TimestampFlags::wf
  entry
    proof { lemma_parts(&gs, gh, gn, gsrc, false, -1); }
  loop 0 invariant
    - i <= target_count && buf@.len() == old(buf)@.len() && output == output_0
    - forall|k: int| output <= k < output + i ==> used_to(gh, gsrc, ch_order@, target_list@[k - output] as int, gt.td[target_list@[k - output] as int] as int, #[trigger] buf@[k])
  loop 0 decreases target_count - i
  loop 0 begin
    let ghost b0 = buf@; let ghost t = target_list@[i as int] as int; let ghost mut p = Seq::<St>::empty();
    proof { let k = choose|k: int| 0 <= k < gcnt && #[trigger] gsel[k] == t; assert(traced(&gs, gh, gt.td, &gt.w, gt.pa, gsel[k] as int)); assert(gs.small()) by { reveal(S::inv_but); } assert(gs.pu(t) ==> gs.td[t] < INF()); }
  loop 1 invariant
    - insel(gsel, gcnt, x as int) && walk(gh, p, x as int, t) && gt.td[x as int] + wl(p) == gt.td[t] && gt.td[x as int] < INF() && gt.td[t] < INF() && x < gn
  loop 1 decreases gn - x
  loop 1 begin
    proof { p = lemma_trace_down(&gs, gh, gn, gsrc, gt, gsel, gcnt, x as int, p, t); }
  loop 2 before
    proof { let k = choose|k: int| 0 <= k < gcnt && #[trigger] gsel[k] == x; assert(traced(&gs, gh, gt.td, &gt.w, gt.pa, gsel[k] as int)); }
  loop 2 invariant
    - gs.pu(x as int) && walk(gh, p, x as int, t) && gs.td[x as int] + wl(p) == gt.td[t] && gt.td[t] < INF() && x < gn
  loop 2 decreases x
  loop 2 begin
    proof { lemma_still(&gs, gh, gn, gsrc, gt, gsel, gcnt, x as int, p, t); p = lemma_trace_up(&gs, gh, gn, gsrc, x as int, p, t); }
  loop 2 after
    proof { assert(gs.wit(gh.f, gsrc, x as int)) by { reveal(S::inv_but); } assert(reach_by(gh, gsrc, t, gt.td[t] as int, x as int, p)); assert(from(gh, gsrc, x as int, t, gt.td[t] as int)); }
  loop 0 end
    proof { assert forall|k: int| output <= k < output + i + 1 implies used_to(gh, gsrc, ch_order@, target_list@[k - output] as int, gt.td[target_list@[k - output] as int] as int, #[trigger] buf@[k]) by { if k < output + i { assert(buf@[k] == b0[k]); assert(used_to(gh, gsrc, ch_order@, target_list@[k - output] as int, gt.td[target_list@[k - output] as int] as int, b0[k])); } else { assert(k - output == i); } } }

fn ContractionHierarchyQuery::get_used_sources_to_targets sig=/unsigned int \*/ rust=/Query_used_t_p/
  pointers output into buf
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  callghost internal_get_used_sources_to_targets gh /./ this.h()
  callghost internal_get_used_sources_to_targets gn /./ this.n()
  callghost internal_get_used_sources_to_targets gsrc /./ src
  callghost internal_get_used_sources_to_targets gs /./ s
  callghost internal_get_used_sources_to_targets gt /./ this.f()
  callghost internal_get_used_sources_to_targets gsel /./ this.backward_tentative_distance@
  callghost internal_get_used_sources_to_targets gcnt /./ this.cnt()
  requires
    - old(this).ran_t(src, list, s)
    - output + list.len() <= old(buf)@.len() <= 0xFFFF_FFFF_FFFF_FFFF
  ensures
    - *final(this) == *old(this) && final(buf)@.len() == old(buf)@.len()
    - forall|k: int| output <= k < output + list.len() ==> used_to(old(this).h(), src, old(this).c().order@, list[k - output] as int, old(this).forward_tentative_distance@[list[k - output] as int] as int, #[trigger] final(buf)@[k])
  hide MinIDQueue::wf MinIDQueue::has MinIDQueue::key TimestampFlags::flag TimestampFlags::wf
  entry
    proof {  }

fn ContractionHierarchyQuery::get_used_sources_to_targets sig=/\(\)/ rust=/Query_used_t/
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  requires
    - old(this).ran_t(src, list, s)
  ensures
    - *final(this) == *old(this) && r@.len() == list.len()
    - forall|k: int| 0 <= k < list.len() ==> used_to(old(this).h(), src, old(this).c().order@, list[k] as int, old(this).forward_tentative_distance@[list[k] as int] as int, #[trigger] r@[k])

fn ContractionHierarchyQuery::get_used_targets_to_sources sig=/unsigned int \*/ rust=/Query_used_s_p/
  pointers output into buf
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  callghost internal_get_used_sources_to_targets gh /./ rev(this.h())
  callghost internal_get_used_sources_to_targets gn /./ this.n()
  callghost internal_get_used_sources_to_targets gsrc /./ src
  callghost internal_get_used_sources_to_targets gs /./ s
  callghost internal_get_used_sources_to_targets gt /./ this.b()
  callghost internal_get_used_sources_to_targets gsel /./ this.forward_tentative_distance@
  callghost internal_get_used_sources_to_targets gcnt /./ this.cnt()
  requires
    - old(this).ran_s(src, list, s)
    - output + list.len() <= old(buf)@.len() <= 0xFFFF_FFFF_FFFF_FFFF
  ensures
    - *final(this) == *old(this) && final(buf)@.len() == old(buf)@.len()
    - forall|k: int| output <= k < output + list.len() ==> used_to(rev(old(this).h()), src, old(this).c().order@, list[k - output] as int, old(this).backward_tentative_distance@[list[k - output] as int] as int, #[trigger] final(buf)@[k])
  hide MinIDQueue::wf MinIDQueue::has MinIDQueue::key TimestampFlags::flag TimestampFlags::wf
  entry
    proof { lemma_ud_rev(this.h()); }

fn ContractionHierarchyQuery::get_used_targets_to_sources sig=/\(\)/ rust=/Query_used_s/
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  requires
    - old(this).ran_s(src, list, s)
  ensures
    - *final(this) == *old(this) && r@.len() == list.len()
    - forall|k: int| 0 <= k < list.len() ==> used_to(rev(old(this).h()), src, old(this).c().order@, list[k] as int, old(this).backward_tentative_distance@[list[k] as int] as int, #[trigger] r@[k])

fn ContractionHierarchyQuery::get_distances_to_targets sig=/unsigned int \*/ rust=/Query_distances_t_p/
  pointers dist into buf
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  requires
    - old(this).ran_t(src, list, s)
    - dist + list.len() <= old(buf)@.len() <= 0xFFFF_FFFF_FFFF_FFFF
  ensures
    - *final(this) == *old(this) && final(buf)@.len() == old(buf)@.len()
    - forall|k: int| dist <= k < dist + list.len() ==> nearest(old(this).h(), src, list[k - dist] as int, #[trigger] final(buf)@[k] as int)
  exit
    proof {  assert forall|k: int| dist <= k < dist + list.len() implies nearest(this.h(), src, list[k - dist] as int, #[trigger] buf@[k] as int) by {
      let i = k - dist;
      assert(this.backward_predecessor_node@[i] == list[i]);
      lemma_nearest(&s, this.h(), this.n(), src, this.forward_tentative_distance@, this.backward_tentative_distance@, this.cnt(), list[i] as int); } }

fn ContractionHierarchyQuery::get_distances_to_sources sig=/unsigned int \*/ rust=/Query_distances_s_p/
  pointers dist into buf
  ghost src: Map<int, int>
  ghost list: Seq<u32>
  ghost s: S
  requires
    - old(this).ran_s(src, list, s)
    - dist + list.len() <= old(buf)@.len() <= 0xFFFF_FFFF_FFFF_FFFF
  ensures
    - *final(this) == *old(this) && final(buf)@.len() == old(buf)@.len()
    - forall|k: int| dist <= k < dist + list.len() ==> nearest(rev(old(this).h()), src, list[k - dist] as int, #[trigger] final(buf)@[k] as int)
  exit
    proof { lemma_ud_rev(this.h()); assert forall|k: int| dist <= k < dist + list.len() implies nearest(rev(this.h()), src, list[k - dist] as int, #[trigger] buf@[k] as int) by {
      let i = k - dist;
      assert(this.forward_predecessor_node@[i] == list[i]);
      lemma_nearest(&s, rev(this.h()), this.n(), src, this.backward_tentative_distance@, this.forward_tentative_distance@, this.cnt(), list[i] as int); } }
