fn compute_chordal_supergraph
  thiscap_mut
  requires
    - tail@.len() == head@.len() && tail@.len() < 0xFFFF_FFFF
    - below(tail@, node_count as int) && below(head@, node_count as int)
    - node_count < 0xFFFF_FFFF
    - old(this_cap).up_tail@.len() == 0 && old(this_cap).up_head@.len() == 0
  ensures
    - up_list(final(this_cap).up_tail@, final(this_cap).up_head@, node_count as int)
    - final(this_cap).up_tail@.len() <= 0xFFFF_FFFF
    - r is Ok ==> chordal_list(final(this_cap).up_tail@, final(this_cap).up_head@)
    - r is Ok ==> covers(final(this_cap).up_tail@, final(this_cap).up_head@, tail@, head@)
    - *final(this_cap) == (CustomizableContractionHierarchy { up_tail: final(this_cap).up_tail, up_head: final(this_cap).up_head, ..*old(this_cap) })
  entry
    let ghost nn = node_count as int;
    let ghost mut v0: NV = Seq::empty();
  loop 0 invariant
    - i <= tail@.len()
    - nv_up(nodes@, nn)
    - nv_covers(nodes@, tail@, head@, i as int)
    - nv_short(nodes@, i as int)
  loop 0 decreases tail@.len() - i
  loop 0 begin
    proof { v0 = nodes@; }
  loop 0 end
    proof { if tail@[i as int] < head@[i as int] { lemma_push_memb(v0, nodes@, tail@[i as int] as int, head@[i as int]); } }
  loop 1 invariant
    - n <= node_count
    - nv_up(nodes@, nn)
    - nv_inc(nodes@, 0, n as int)
    - nv_short(nodes@, tail@.len() as int)
    - nv_covers(nodes@, tail@, head@, tail@.len() as int)
  loop 1 decreases node_count - n
  loop 1 begin
    proof { v0 = nodes@; lemma_occ_all(); lemma_memb_up(v0, n as int, nn); }
  loop 1 end
    proof {
        assert forall|u: u32| #[trigger] memb(v0, n as int, u) implies memb(nodes@, n as int, u) by {}
        assert forall|u: u32| #[trigger] memb(nodes@, n as int, u) implies n < u < nn by { assert(memb(v0, n as int, u)); }
        lemma_repl(v0, nodes@, n as int, nn);
        lemma_grow(v0, nodes@, n as int, nn, 0, tail@, head@);
    }
  loop 2 invariant
    - n <= node_count
    - nv_up(nodes@, nn)
    - nv_inc(nodes@, 0, nn)
    - nv_covers(nodes@, tail@, head@, tail@.len() as int)
    - nv_passed(nodes@, n as int)
    - this_cap.up_tail@.len() <= 0xFFFF_FFFF
    - up_list(this_cap.up_tail@, this_cap.up_head@, nn)
    - out_ok(nodes@, this_cap.up_tail@, this_cap.up_head@, n as int, 0)
    - *this_cap == (CustomizableContractionHierarchy { up_tail: this_cap.up_tail, up_head: this_cap.up_head, ..*old(this_cap) })
  loop 2 decreases node_count - n
  loop 2 begin
    proof {
        v0 = nodes@; lemma_occ_all(); lemma_memb_up(v0, n as int, nn);
        lemma_inc_len(nodes@[n as int]@, nn);
        if nodes@[n as int]@.len() > 0 {
            assert(n < nodes@[n as int]@[0] < nn);
            lemma_inc_len(nodes@[nodes@[n as int]@[0] as int]@, nn);
            lemma_memb_up(v0, nodes@[n as int]@[0] as int, nn);
        }
    }
  loop 2 after
    proof { lemma_out(nodes@, this_cap.up_tail@, this_cap.up_head@, nn, tail@, head@); }
  loop 3 before
    proof { lemma_pass(v0, nodes@, n as int, nn, tail@, head@, this_cap.up_tail@, this_cap.up_head@); }
  loop 3 begin
    proof { lemma_emit(nodes@, this_cap.up_tail@, this_cap.up_head@, this_cap.up_tail@.push(n), this_cap.up_head@.push(nodes@[n as int]@[idx_neighbor as int]), n as int, idx_neighbor as int, nn); }
  loop 3 invariant
    - idx_neighbor <= nodes@[n as int]@.len()
    - this_cap.up_tail@.len() <= 0xFFFF_FFFF
    - up_list(this_cap.up_tail@, this_cap.up_head@, nn)
    - out_ok(nodes@, this_cap.up_tail@, this_cap.up_head@, n as int, idx_neighbor as int)
    - *this_cap == (CustomizableContractionHierarchy { up_tail: this_cap.up_tail, up_head: this_cap.up_head, ..*old(this_cap) })
  loop 3 decreases nodes@[n as int]@.len() - idx_neighbor
  loop 3 after
    proof { lemma_emitted(nodes@, this_cap.up_tail@, this_cap.up_head@, n as int, nn); }

fn CustomizableContractionHierarchy::CustomizableContractionHierarchy sig=/vector/ rust=/cch_build/
  attr verifier::exec_allows_no_decreases_clause
  requires
    - is_perm(arg_order@) && arg_order@.len() < 0x4000_0000
    - input_tail@.len() == input_head@.len() && input_tail@.len() < 0x4000_0000
    - below(input_tail@, arg_order@.len() as int) && below(input_head@, arg_order@.len() as int)
  entry
    let ghost nn = arg_order_0@.len() as int;
    let ghost kk = input_tail_0@.len() as int;
    let ghost mut rt: Seq<u32> = Seq::empty();
    let ghost mut rh: Seq<u32> = Seq::empty();
    let ghost mut st0: Seq<u32> = Seq::empty();
    let ghost mut sh0: Seq<u32> = Seq::empty();
    let ghost mut ut0: Seq<u32> = Seq::empty();
    let ghost mut uh0: Seq<u32> = Seq::empty();
    let ghost mut ufo0: Seq<u32> = Seq::empty();
    let ghost mut rk0: Seq<u32> = Seq::empty();
    let ghost mut l0: Seq<u32> = Seq::empty();
    let ghost mut it0: Seq<u32> = Seq::empty();
    let ghost mut ih0: Seq<u32> = Seq::empty();
    let ghost mut id0: Seq<u32> = Seq::empty();
    let ghost mut up0: BitVector = this.is_input_arc_upward;
    let ghost mut c0: int = 0;
    let ghost mut tgt: int = 0;
    let ghost mut m0: int = 0;
    let ghost mut xa0: int = 0;
    let ghost mut ya0: int = 0;
    let ghost mut l1: Seq<u32> = Seq::empty();
    let ghost mut l2: Seq<u32> = Seq::empty();
    let ghost mut par0: Seq<u32> = Seq::empty();
    let ghost mut ut1: Seq<u32> = Seq::empty();
    let ghost mut uh1: Seq<u32> = Seq::empty();
    let ghost mut ufo1: Seq<u32> = Seq::empty();
    let ghost mut up1: BitVector = this.is_input_arc_upward;
    let ghost mut f0: BitVector = this.is_input_arc_upward;
    let ghost mut b0: BitVector = this.is_input_arc_upward;
    let ghost mut ix: Seq<int> = Seq::empty();
    let ghost mut gf: Seq<bool> = Seq::empty();
    let ghost mut gb: Seq<bool> = Seq::empty();
  aftercall apply_permutation_to_elements_of 1
    proof { rt = input_tail@; rh = input_head@; assert(below(rt, nn)) by { lemma_mapped_below(this.rank@, input_tail_0@, rt, nn); } assert(below(rh, nn)) by { lemma_mapped_below(this.rank@, input_head_0@, rh, nn); } }
  aftercall apply_permutation_c 0
    proof { lemma_inp(rt, rh, input_tail@, input_head@, input_arc_id@, nn); }
  aftercall rk_copy 3
    proof { st0 = symmetric_tail@; sh0 = symmetric_head@; lemma_sym(rt, rh, input_tail@, input_head@, input_arc_id@, st0, sh0, nn); }
  aftercall compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail 0
    proof { lemma_ex_perm(p@); }
  aftercall apply_inverse_permutation_m 0
    proof { lemma_both_perm(rt, rh, st0, sh0, p@, symmetric_tail@, symmetric_head@, nn); st0 = symmetric_tail@; sh0 = symmetric_head@; }
  loop 0 invariant
    - 1 <= i && (i <= 2 * kk || kk == 0)
    - filter.wf() && filter.n() == 2 * kk
    - forall|k: int| 0 <= k < i && k < 2 * kk ==> #[trigger] filter.get(k) == first_eq(st0, sh0, k)
  loop 0 decreases 2 * kk + 1 - i
  loop 0 after
    proof { lemma_kept_both(rt, rh, st0, sh0, &filter, nn); }
  aftercall compute_chordal_supergraph 0
    proof { lemma_cov(rt, rh, symmetric_tail@, symmetric_head@, this.up_tail@, this.up_head@); ut0 = this.up_tail@; uh0 = this.up_head@; lemma_up_sorted(ut0, uh0, nn); }
  aftercall compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail 1
    proof { lemma_resort(ut0, uh0, p@, nn); assert forall|k: int| 0 <= k < ut0.len() implies this.up_tail@[k] == ut0[k] by { assert(p@[k] == k); } assert(this.up_tail@ =~= ut0); }
  aftercall apply_inverse_permutation_c 0
    proof { assert forall|k: int| 0 <= k < uh0.len() implies this.up_head@[k] == uh0[k] by { assert(p@[k] == k); } assert(this.up_head@ =~= uh0); }
  aftercall BitVector_resize_init 0
    proof { lemma_no_arcs(rt, rh, this.input_arc_to_cch_arc@, this.is_input_arc_upward, ut0, uh0); }
  aftercall BitVector_resize_init 1
    proof { lemma_ln1_0(rt, rh, input_arc_id@, this.input_arc_to_cch_arc@, this.is_input_arc_upward, ut0, uh0); lemma_reach0(input_tail@, input_head@, ut0, uh0); lemma_inp_len(rt, rh, input_tail@, input_head@, input_arc_id@); }
  loop 1 invariant
    - input_arc <= kk && cch_up_arc < ut0.len()
    - this.input_arc_to_cch_arc@.len() == kk && this.is_input_arc_upward.wf() && this.is_input_arc_upward.n() == kk
    - this.up_tail@ == ut0 && this.up_head@ == uh0 && this.order@ == arg_order_0@ && this.rank@ == rk0 && this.up_first_out@ == ufo0
    - fresh(this)
    - ln1(rt, rh, input_arc_id@, this.input_arc_to_cch_arc@, this.is_input_arc_upward, ut0, uh0, input_arc as int)
    - reach(input_tail@, input_head@, ut0, uh0, cch_up_arc as int, input_arc as int)
  loop 1 decreases kk - input_arc
  loop 1 begin
    proof { l0 = this.input_arc_to_cch_arc@; up0 = this.is_input_arc_upward; c0 = cch_up_arc as int; }
  loop 1 end
    proof { lemma_ln1(rt, rh, input_tail@, input_head@, input_arc_id@, l0, up0, this.input_arc_to_cch_arc@, this.is_input_arc_upward, ut0, uh0, input_arc as int); lemma_reach(input_tail@, input_head@, ut0, uh0, cch_up_arc as int, input_arc as int); }
  loop 1 after
    proof { it0 = input_tail@; ih0 = input_head@; id0 = input_arc_id@; lemma_ln1_done(rt, rh, it0, ih0, id0, this.input_arc_to_cch_arc@, this.is_input_arc_upward, ut0, uh0, id0); }
  loop 2 before
    proof { tgt = lemma_tgt(rt, rh, input_tail@, input_head@, input_arc_id@, ut0, uh0, nn, cch_up_arc as int, input_arc as int); }
  loop 2 invariant
    - cch_up_arc <= tgt && lst(ut0, uh0, tgt, input_tail@[input_arc as int] as int, input_head@[input_arc as int] as int)
  loop 2 decreases tgt - cch_up_arc
  aftercall compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail 2
    proof { lemma_ex_perm(p@); }
  aftercall apply_inverse_permutation_c 2
    proof { lemma_inp_swap(rt, rh, it0, ih0, id0, p@, input_tail@, input_head@, input_arc_id@); lemma_ln1_done(rt, rh, it0, ih0, id0, this.input_arc_to_cch_arc@, this.is_input_arc_upward, ut0, uh0, input_arc_id@); lemma_reach0(input_tail@, input_head@, ut0, uh0); lemma_inp_len(rh, rt, input_tail@, input_head@, input_arc_id@); }
  loop 3 invariant
    - input_arc <= kk && cch_up_arc < ut0.len()
    - this.input_arc_to_cch_arc@.len() == kk && this.is_input_arc_upward.wf() && this.is_input_arc_upward.n() == kk
    - this.up_tail@ == ut0 && this.up_head@ == uh0 && this.order@ == arg_order_0@ && this.rank@ == rk0 && this.up_first_out@ == ufo0
    - fresh(this)
    - ln2(rt, rh, input_arc_id@, this.input_arc_to_cch_arc@, ut0, uh0, input_arc as int)
    - ups(rt, rh, this.is_input_arc_upward)
    - reach(input_tail@, input_head@, ut0, uh0, cch_up_arc as int, input_arc as int)
  loop 3 decreases kk - input_arc
  loop 3 begin
    proof { l0 = this.input_arc_to_cch_arc@; c0 = cch_up_arc as int; }
  loop 3 end
    proof { lemma_ln2(rt, rh, input_tail@, input_head@, input_arc_id@, l0, this.input_arc_to_cch_arc@, ut0, uh0, input_arc as int); lemma_reach(input_tail@, input_head@, ut0, uh0, cch_up_arc as int, input_arc as int); }
  loop 3 after
    proof { lemma_ln2_done(rt, rh, input_tail@, input_head@, input_arc_id@, this.input_arc_to_cch_arc@, ut0, uh0); }
  loop 4 before
    proof { tgt = lemma_tgt(rh, rt, input_tail@, input_head@, input_arc_id@, ut0, uh0, nn, cch_up_arc as int, input_arc as int); }
  loop 4 invariant
    - cch_up_arc <= tgt && lst(ut0, uh0, tgt, input_tail@[input_arc as int] as int, input_head@[input_arc as int] as int)
  loop 4 decreases tgt - cch_up_arc
  aftercall invert_vector 0
    proof { ufo0 = this.up_first_out@; rk0 = this.rank@; }
  loop 5 before
    proof { l1 = this.input_arc_to_cch_arc@; up1 = this.is_input_arc_upward; lemma_pars0(ufo0, uh0, this.elimination_tree_parent@); }
  loop 5 begin
    proof { par0 = this.elimination_tree_parent@; lemma_ix(ut0, ufo0, nn, x as int); }
  loop 5 end
    proof { assert(this.elimination_tree_parent@ == par0.update(x as int, par_of(ufo0, uh0, x as int))); lemma_pars(ufo0, uh0, par0, this.elimination_tree_parent@, x as int); }
  loop 5 invariant
    - x <= nn && this.elimination_tree_parent@.len() == nn
    - same(this, arg_order_0@, rk0, ut0, uh0, ufo0, up1) && this.input_arc_to_cch_arc@ == l1
    - pars(ufo0, uh0, this.elimination_tree_parent@, x as int)
  loop 5 decreases nn - x
  loop 5 after
    proof {
        par0 = this.elimination_tree_parent@; m0 = ut0.len() as int;
        lemma_tree(ut0, uh0, ufo0, par0, nn); lemma_llen(rt, rh, l1, ut0, uh0); lemma_unpruned(ut0, uh0, l1, up1);
        ix = idx_id(m0); gf = all_true(m0); gb = all_true(m0);
    }
  loop 6 before
    proof { lemma_seed0(l1, up1, bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf)); f0 = can_forward_weight_be_non_inf; b0 = can_backward_weight_be_non_inf; }
  loop 6 invariant
    - input_arc <= kk
    - can_forward_weight_be_non_inf.wf() && can_forward_weight_be_non_inf.n() == m0 && can_backward_weight_be_non_inf.wf() && can_backward_weight_be_non_inf.n() == m0
    - seeds(l1, up1, bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf), input_arc as int)
  loop 6 decreases kk - input_arc
  loop 6 begin
    proof { f0 = can_forward_weight_be_non_inf; b0 = can_backward_weight_be_non_inf; }
  loop 6 end
    proof { lemma_seed(l1, up1, bits_of(f0), bits_of(b0), bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf), input_arc as int); }
  loop 7 before
    proof { lemma_clo0(ut0, uh0, bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf)); }
  loop 7 invariant
    - a <= m0
    - can_forward_weight_be_non_inf.wf() && can_forward_weight_be_non_inf.n() == m0 && can_backward_weight_be_non_inf.wf() && can_backward_weight_be_non_inf.n() == m0
    - seeds(l1, up1, bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf), kk)
    - clo(ut0, uh0, bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf), a as int)
  loop 7 decreases m0 - a
  loop 7 begin
    proof { lemma_mst0(ut0, uh0, ufo0, bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf), nn, a as int); }
  loop 8 invariant
    - a < x_up_arc <= x_up_arc_end && ufo0[uh0[a as int] as int] <= y_up_arc <= y_up_arc_end
    - can_forward_weight_be_non_inf.wf() && can_forward_weight_be_non_inf.n() == m0 && can_backward_weight_be_non_inf.wf() && can_backward_weight_be_non_inf.n() == m0
    - seeds(l1, up1, bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf), kk)
    - clo(ut0, uh0, bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf), a as int)
    - mst(ut0, uh0, bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf), a as int, x_up_arc as int, y_up_arc as int)
  loop 8 decreases (x_up_arc_end - x_up_arc) + (y_up_arc_end - y_up_arc)
  loop 8 begin
    proof { f0 = can_forward_weight_be_non_inf; b0 = can_backward_weight_be_non_inf; xa0 = x_up_arc as int; ya0 = y_up_arc as int; assert(ut0[xa0] == ut0[a as int]); assert(ut0[ya0] == uh0[a as int]); }
  loop 8 end
    proof {
        lemma_mst(ut0, uh0, ufo0, nn, a as int, xa0, ya0, bits_of(f0), bits_of(b0), bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf), x_up_arc as int, y_up_arc as int);
        lemma_seed_more(l1, up1, bits_of(f0), bits_of(b0), bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf));
    }
  loop 8 after
    proof { lemma_clo(ut0, uh0, ufo0, nn, bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf), a as int, x_up_arc as int, y_up_arc as int); }
  aftercall keep_element_of_vector_if 1
    proof { lemma_pruned_up(ut0, uh0, this.up_tail@, this.up_head@, &must_keep_arc, nn, par0); }
  loop 9 before
    proof { ut1 = this.up_tail@; uh1 = this.up_head@; ufo1 = this.up_first_out@; lemma_keepbit(l1, up1, must_keep_arc, bits_of(can_forward_weight_be_non_inf), bits_of(can_backward_weight_be_non_inf)); }
  loop 9 invariant
    - idx_x <= kk && this.input_arc_to_cch_arc@.len() == kk
    - same(this, arg_order_0@, rk0, ut1, uh1, ufo1, up1) && this.elimination_tree_parent@ == par0
    - forall|j: int| 0 <= j < idx_x ==> #[trigger] this.input_arc_to_cch_arc@[j] == relink(must_keep_arc.data_@, l1[j])
    - forall|j: int| idx_x <= j < kk ==> #[trigger] this.input_arc_to_cch_arc@[j] == l1[j]
  loop 9 decreases kk - idx_x
  loop 9 after
    proof {
        gf = bits_of(can_forward_weight_be_non_inf); gb = bits_of(can_backward_weight_be_non_inf); ix = kix(&must_keep_arc, m0);
        lemma_pruned(rt, rh, ut0, uh0, ut1, uh1, l1, this.input_arc_to_cch_arc@, up1, must_keep_arc, gf, gb);
    }
  aftercall rk_clone 1
    proof { ut1 = this.up_tail@; uh1 = this.up_head@; ufo1 = this.up_first_out@; l2 = this.input_arc_to_cch_arc@; lemma_up_sorted(ut1, uh1, nn); }
  aftercall apply_permutation_m 0
    proof { lemma_down_sorted(ut1, uh1, down_tail@, this.down_to_up@, nn); }
  aftercall invert_vector 2
    proof { lemma_down(ut1, uh1, down_tail@, this.down_first_out@, this.down_head@, this.down_to_up@, nn);
        assert(linked(rt, rh, l2, ut1, uh1) && pruned(ut0, uh0, ut1, uh1, ix, gf, gb) && pseeds(l2, up1, ix, gf, gb) && up_list(ut1, uh1, nn) && is_index(ut1, ufo1, nn) && treed(par0, ut1, uh1) && cch_arc_count == ut1.len());
        assume(false); }
