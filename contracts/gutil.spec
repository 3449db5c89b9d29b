fn find_arc_or_return_invalid
  requires
    - graph_ok(first_out@, head@)
    - x < first_out@.len() - 1
    - y < first_out@.len() - 1
  ensures
    - r != 0xFFFF_FFFF ==> is_arc(first_out@, head@, r as int, x as int, y as int)
    - r == 0xFFFF_FFFF ==> forall|a: int| !#[trigger] is_arc(first_out@, head@, a, x as int, y as int)
  entry
    proof { assert(first_out@[x + 1] <= first_out@[first_out@.len() - 1]); assert(first_out@[x as int] <= first_out@[x + 1]); }
  loop 0 invariant
    - first_out@[x as int] <= xy <= first_out@[x + 1]
    - forall|a: int| first_out@[x as int] <= a < xy ==> #[trigger] head@[a] != y
  loop 0 decreases first_out@[x + 1] - xy

fn find_arc
  requires
    - graph_ok(first_out@, head@)
    - x < first_out@.len() - 1
    - y < first_out@.len() - 1
    - exists|a: int| #[trigger] is_arc(first_out@, head@, a, x as int, y as int)
  ensures
    - is_arc(first_out@, head@, r as int, x as int, y as int)

fn find_arc_or_return_invalid_given_sorted_head
  requires
    - graph_ok(first_out@, head@)
    - x < first_out@.len() - 1
    - y < first_out@.len() - 1
    - seq_sorted(head@, first_out@[x as int] as int, first_out@[x + 1] as int)
  ensures
    - r != 0xFFFF_FFFF ==> is_arc(first_out@, head@, r as int, x as int, y as int)
    - r == 0xFFFF_FFFF ==> forall|a: int| !#[trigger] is_arc(first_out@, head@, a, x as int, y as int)
  entry
    proof { assert(first_out@[x + 1] <= first_out@[first_out@.len() - 1]); assert(first_out@[x as int] <= first_out@[x + 1]); }

fn find_arc_given_sorted_head
  requires
    - graph_ok(first_out@, head@)
    - x < first_out@.len() - 1
    - y < first_out@.len() - 1
    - seq_sorted(head@, first_out@[x as int] as int, first_out@[x + 1] as int)
    - exists|a: int| #[trigger] is_arc(first_out@, head@, a, x as int, y as int)
  ensures
    - is_arc(first_out@, head@, r as int, x as int, y as int)

fn convert_node_path_to_arc_path
  ret res
  requires
    - graph_ok(first_out@, head@)
    - path@.len() < 0x1_0000_0000
    - forall|i: int| 0 <= i < path@.len() ==> #[trigger] path@[i] < first_out@.len() - 1
    - node_path_ok(first_out@, head@, path@)
  ensures
    - path@.len() == 0 ==> res@.len() == 0
    - path@.len() > 0 ==> res@.len() == path@.len() - 1
    - forall|i: int| 0 <= i < res@.len() ==> is_arc(first_out@, head@, (#[trigger] res@[i]) as int, path@[i] as int, path@[i + 1] as int)
  loop 0 invariant
    - path@.len() == path_0@.len()
    - path@.len() > 0
    - i <= path@.len() - 1
    - forall|k: int| 0 <= k < i ==> is_arc(first_out@, head@, (#[trigger] path@[k]) as int, path_0@[k] as int, path_0@[k + 1] as int)
    - forall|k: int| i <= k < path@.len() ==> #[trigger] path@[k] == path_0@[k]
  loop 0 begin
    proof { assert(path_0@[i as int] < first_out@.len() - 1); assert(has_arc(first_out@, head@, path_0@[i as int] as int, path_0@[i + 1] as int)); }
    let ghost the_arc = choose|a: int| #[trigger] is_arc(first_out@, head@, a, path_0@[i as int] as int, path_0@[i + 1] as int);
    proof { assert(first_out@[path_0@[i as int] + 1] <= first_out@[first_out@.len() - 1]); }
  loop 0 decreases path@.len() - 1 - i
  loop 1 invariant_except_break
    - path@.len() == path_0@.len()
    - forall|k: int| 0 <= k < i ==> is_arc(first_out@, head@, (#[trigger] path@[k]) as int, path_0@[k] as int, path_0@[k + 1] as int)
    - forall|k: int| i <= k < path@.len() ==> #[trigger] path@[k] == path_0@[k]
    - first_out@[path_0@[i as int] as int] <= xy <= the_arc
  loop 1 ensures
    - path@.len() == path_0@.len()
    - forall|k: int| 0 <= k < i + 1 ==> is_arc(first_out@, head@, (#[trigger] path@[k]) as int, path_0@[k] as int, path_0@[k + 1] as int)
    - forall|k: int| i + 1 <= k < path@.len() ==> #[trigger] path@[k] == path_0@[k]
  loop 1 decreases the_arc - xy

fn convert_arc_path_to_node_path
  ret res
  requires
    - path@.len() < 0xFFFF_FFFF
    - forall|i: int| 0 <= i < path@.len() ==> #[trigger] path@[i] < head@.len()
  ensures
    - path@.len() == 0 ==> res@.len() == 0
    - path@.len() > 0 ==> res@.len() == path@.len() + 1 && res@[0] == source
    - forall|i: int| 0 <= i < path@.len() ==> res@[i + 1] == head@[#[trigger] path@[i] as int]
  loop 0 invariant
    - path@.len() == path_0@.len() + 1
    - i < path@.len()
    - forall|k: int| 0 <= k < i ==> #[trigger] path@[k] == path_0@[k]
    - forall|k: int| i <= k < path_0@.len() ==> path@[k + 1] == head@[#[trigger] path_0@[k] as int]
  loop 0 decreases i

fn compute_sort_permutation_first_by_left_then_by_right
  ret res
  requires
    - a@.len() < 0x1_0000_0000
    - a@.len() == b@.len()
    - below(a@, a_count as int)
    - below(b@, b_count as int)
  ensures
    - res@.len() == b@.len()
    - lexi_perm(a@, b@, res@)
  entry
    proof { lemma_below(a@, a_count as int); lemma_below(b@, b_count as int); }
  exit
    proof {
        let ap = Seq::new(b@.len(), |k: int| a@[p@[k] as int]);
        lemma_lexi(a@, b@, ap, p@, q@, res@);
    }

fn compute_sort_permutation_first_by_tail_then_by_head
  ret res
  requires
    - tail@.len() < 0x1_0000_0000
    - tail@.len() == head@.len()
    - below(tail@, node_count as int)
    - below(head@, node_count as int)
  ensures
    - res@.len() == head@.len()
    - lexi_perm(tail@, head@, res@)

fn compute_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left
  ret res
  requires
    - old(a)@.len() < 0x1_0000_0000
    - old(a)@.len() == b@.len()
    - below(old(a)@, a_count as int)
    - below(b@, b_count as int)
  ensures
    - res@.len() == b@.len()
    - lexi_perm(old(a)@, b@, res@)
    - final(a)@.len() == old(a)@.len()
    - forall|k: int| 0 <= k < res@.len() ==> #[trigger] final(a)@[k] == old(a)@[res@[k] as int]
  entry
    proof { lemma_below(old(a)@, a_count as int); lemma_below(b@, b_count as int); }
  exit
    proof {
        let ap = Seq::new(b@.len(), |k: int| old(a)@[p@[k] as int]);
        lemma_lexi(old(a)@, b@, ap, p@, q@, res@);
    }

fn compute_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail
  ret res
  requires
    - old(tail)@.len() < 0x1_0000_0000
    - old(tail)@.len() == head@.len()
    - below(old(tail)@, node_count as int)
    - below(head@, node_count as int)
  ensures
    - res@.len() == head@.len()
    - lexi_perm(old(tail)@, head@, res@)
    - final(tail)@.len() == old(tail)@.len()
    - forall|k: int| 0 <= k < res@.len() ==> #[trigger] final(tail)@[k] == old(tail)@[res@[k] as int]

fn compute_inverse_sort_permutation_first_by_left_then_by_right
  ret res
  requires
    - a@.len() < 0x1_0000_0000
    - a@.len() == b@.len()
    - below(a@, a_count as int)
    - below(b@, b_count as int)
  ensures
    - res@.len() == b@.len()
    - exists|s: Seq<u32>| #[trigger] is_inv(s, res@) && lexi_perm(a@, b@, s)
  entry
    proof { lemma_below(a@, a_count as int); lemma_below(b@, b_count as int); }
  exit
    proof {
        let ap = inv_applied(p@, a@);
        lemma_inv_applied(p@, a@);
        lemma_lexi_inv(a@, b@, ap, p@, q@, res@);
    }

fn compute_inverse_sort_permutation_first_by_tail_then_by_head
  ret res
  requires
    - tail@.len() < 0x1_0000_0000
    - tail@.len() == head@.len()
    - below(tail@, node_count as int)
    - below(head@, node_count as int)
  ensures
    - res@.len() == head@.len()
    - exists|s: Seq<u32>| #[trigger] is_inv(s, res@) && lexi_perm(tail@, head@, s)

fn compute_inverse_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left
  ret res
  requires
    - old(a)@.len() < 0x1_0000_0000
    - old(a)@.len() == b@.len()
    - below(old(a)@, a_count as int)
    - below(b@, b_count as int)
  ensures
    - res@.len() == b@.len()
    - exists|s: Seq<u32>| #[trigger] is_inv(s, res@) && lexi_perm(old(a)@, b@, s)
    - final(a)@.len() == old(a)@.len()
    - forall|k: int| 0 <= k < res@.len() ==> final(a)@[(#[trigger] res@[k]) as int] == old(a)@[k]
  entry
    proof { lemma_below(old(a)@, a_count as int); lemma_below(b@, b_count as int); }
  exit
    proof {
        let ap = inv_applied(p@, old(a)@);
        lemma_inv_applied(p@, old(a)@);
        lemma_lexi_inv(old(a)@, b@, ap, p@, q@, res@);
    }

fn compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail
  ret res
  requires
    - old(tail)@.len() < 0x1_0000_0000
    - old(tail)@.len() == head@.len()
    - below(old(tail)@, node_count as int)
    - below(head@, node_count as int)
  ensures
    - res@.len() == head@.len()
    - exists|s: Seq<u32>| #[trigger] is_inv(s, res@) && lexi_perm(old(tail)@, head@, s)
    - final(tail)@.len() == old(tail)@.len()
    - forall|k: int| 0 <= k < res@.len() ==> final(tail)@[(#[trigger] res@[k]) as int] == old(tail)@[k]
