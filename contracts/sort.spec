functor vk::Key vk_key
functor vk::Less vk_less
functor detail::CompareByKey cmp_by_key_exec key_less
dropfield CompareByKey get_key

fn CompareByKey::operator()
  ret res
  requires
    - vk_key_spec(l) < this.key_count
    - vk_key_spec(r) < this.key_count
  ensures
    - res == key_less(l, r)

fn compute_key_pos
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - keys_below(v@, key_count as int)
  ensures
    - res@.len() == key_count
    - forall|k: int| 0 <= k < key_count ==> #[trigger] res@[k] == cless(v@, v@.len() as int, k)
  loop 0 invariant
    - i <= v@.len()
    - key_pos@.len() == key_count
    - forall|k: int| 0 <= k < key_count ==> #[trigger] key_pos@[k] == cnt(v@, i as int, k)
  loop 0 begin
    proof { assert forall|k: int| 0 <= k < key_count implies cnt(v@, i as int, k) <= i by { lemma_cnt(v@, i as int, i as int, k); } assert(ky(v@[i as int]) < key_count); }
  loop 0 decreases v@.len() - i
  loop 1 invariant
    - i <= key_count
    - key_pos@.len() == key_count
    - sum == cless(v@, v@.len() as int, i as int)
    - forall|k: int| 0 <= k < i ==> #[trigger] key_pos@[k] == cless(v@, v@.len() as int, k)
    - forall|k: int| i <= k < key_count ==> #[trigger] key_pos@[k] == cnt(v@, v@.len() as int, k)
  loop 1 before
    proof { lemma_cless(v@, v@.len() as int, 0); }
  loop 1 begin
    proof { lemma_cless(v@, v@.len() as int, i as int); lemma_cless(v@, v@.len() as int, i + 1); }
  loop 1 decreases key_count - i

fn compute_maybe_stable_sort_permutation_using_key targs=/<1,/ rust=/sort_permutation_key_stable/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - keys_below(v@, key_count as int)
  ensures
    - stable_perm(v@, res@, lt_key())
  loop 0 invariant
    - i <= v@.len()
    - p@.len() == v@.len()
    - key_pos@.len() == key_count
    - forall|k: int| 0 <= k < key_count ==> #[trigger] key_pos@[k] == cless(v@, v@.len() as int, k) + cnt(v@, i as int, k)
    - forall|j: int| 0 <= j < i ==> p@[(#[trigger] slots(v@)[j]) as int] == j
  loop 0 begin
    proof { assert(ky(v@[i as int]) < key_count); lemma_slot(v@, i as int); lemma_slots_perm(v@); assert(slots(v@)[i as int] == slot(v@, i as int)); }
  loop 0 decreases v@.len() - i
  loop 0 after
    proof { lemma_slots_perm(v@); lemma_inv_half(slots(v@), p@); lemma_bucket(v@, p@); }

fn compute_inverse_maybe_stable_sort_permutation_using_key targs=/<1,/ rust=/inverse_sort_permutation_key_stable/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - keys_below(v@, key_count as int)
  ensures
    - exists|p: Seq<u32>| #[trigger] is_inv(p, res@) && stable_perm(v@, p, lt_key())
  loop 0 invariant
    - i <= v@.len()
    - p@.len() == v@.len()
    - key_pos@.len() == key_count
    - forall|k: int| 0 <= k < key_count ==> #[trigger] key_pos@[k] == cless(v@, v@.len() as int, k) + cnt(v@, i as int, k)
    - forall|j: int| 0 <= j < i ==> #[trigger] p@[j] == slots(v@)[j]
  loop 0 begin
    proof { assert(ky(v@[i as int]) < key_count); lemma_slot(v@, i as int); lemma_slots_perm(v@); assert(slots(v@)[i as int] == slot(v@, i as int)); }
  loop 0 decreases v@.len() - i
  loop 0 after
    proof { lemma_slots_perm(v@); assert(p@ =~= slots(v@)); lemma_has_inv(p@); let q = choose|q: Seq<u32>| #[trigger] is_inv(p@, q); lemma_bucket(v@, q); assert(is_inv(q, p@)); }

fn maybe_stable_sort_using_key sig=/\(.*const std::vector/ targs=/<1,/ rust=/sort_key_stable_c/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - keys_below(v@, key_count as int)
  ensures
    - stably_sorted_copy(v@, res@, lt_key())
  loop 0 invariant
    - i <= v@.len()
    - r@.len() == v@.len()
    - key_pos@.len() == key_count
    - forall|k: int| 0 <= k < key_count ==> #[trigger] key_pos@[k] == cless(v@, v@.len() as int, k) + cnt(v@, i as int, k)
    - forall|j: int| 0 <= j < i ==> r@[(#[trigger] slots(v@)[j]) as int] == v@[j]
  loop 0 begin
    proof { assert(ky(v@[i as int]) < key_count); lemma_slot(v@, i as int); lemma_slots_perm(v@); assert(slots(v@)[i as int] == slot(v@, i as int)); }
  loop 0 decreases v@.len() - i
  loop 0 after
    proof { lemma_slots_perm(v@); lemma_has_inv(slots(v@)); let q = choose|q: Seq<u32>| #[trigger] is_inv(slots(v@), q); lemma_bucket(v@, q); assert forall|x: int| 0 <= x < r@.len() implies #[trigger] r@[x] == v@[q[x] as int] by { assert(slots(v@)[q[x] as int] == x); } assert(rearranged_by(v@, r@, q)); }

fn maybe_stable_sort_using_key sig=/\(.*vector<.*>&&|vector<.*> &&/ targs=/<1,/ rust=/sort_key_stable_m/
  ret res
  requires
    - old(v)@.len() < 0x1_0000_0000
    - keys_below(old(v)@, key_count as int)
  ensures
    - stably_sorted_copy(old(v)@, res@, lt_key())
  loop 0 invariant
    - v@ == old(v)@
    - i <= v@.len()
    - r@.len() == v@.len()
    - key_pos@.len() == key_count
    - forall|k: int| 0 <= k < key_count ==> #[trigger] key_pos@[k] == cless(v@, v@.len() as int, k) + cnt(v@, i as int, k)
    - forall|j: int| 0 <= j < i ==> r@[(#[trigger] slots(v@)[j]) as int] == v@[j]
  loop 0 begin
    proof { assert(ky(v@[i as int]) < key_count); lemma_slot(v@, i as int); lemma_slots_perm(v@); assert(slots(v@)[i as int] == slot(v@, i as int)); }
  loop 0 decreases v@.len() - i
  loop 0 after
    proof { lemma_slots_perm(v@); lemma_has_inv(slots(v@)); let q = choose|q: Seq<u32>| #[trigger] is_inv(slots(v@), q); lemma_bucket(v@, q); assert forall|x: int| 0 <= x < r@.len() implies #[trigger] r@[x] == v@[q[x] as int] by { assert(slots(v@)[q[x] as int] == x); } assert(rearranged_by(v@, r@, q)); }

fn compute_maybe_stable_sort_permutation_using_key targs=/<0,/ rust=/sort_permutation_key_unstable/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - keys_below(v@, key_count as int)
  ensures
    - sort_perm(v@, res@, lt_key())
  loop 0 invariant
    - i <= v@.len()
    - p@.len() == v@.len()
    - key_pos@.len() == key_count
    - forall|k: int| 0 <= k < key_count ==> #[trigger] key_pos@[k] == cless(v@, v@.len() as int, k) + cnt(v@, i as int, k)
    - forall|j: int| 0 <= j < i ==> p@[(#[trigger] slots(v@)[j]) as int] == j
  loop 0 begin
    proof { assert(ky(v@[i as int]) < key_count); lemma_slot(v@, i as int); lemma_slots_perm(v@); assert(slots(v@)[i as int] == slot(v@, i as int)); }
  loop 0 decreases v@.len() - i
  loop 0 after
    proof { lemma_slots_perm(v@); lemma_inv_half(slots(v@), p@); lemma_bucket(v@, p@); }

fn compute_inverse_maybe_stable_sort_permutation_using_key targs=/<0,/ rust=/inverse_sort_permutation_key_unstable/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - keys_below(v@, key_count as int)
  ensures
    - exists|p: Seq<u32>| #[trigger] is_inv(p, res@) && sort_perm(v@, p, lt_key())
  loop 0 invariant
    - i <= v@.len()
    - p@.len() == v@.len()
    - key_pos@.len() == key_count
    - forall|k: int| 0 <= k < key_count ==> #[trigger] key_pos@[k] == cless(v@, v@.len() as int, k) + cnt(v@, i as int, k)
    - forall|j: int| 0 <= j < i ==> #[trigger] p@[j] == slots(v@)[j]
  loop 0 begin
    proof { assert(ky(v@[i as int]) < key_count); lemma_slot(v@, i as int); lemma_slots_perm(v@); assert(slots(v@)[i as int] == slot(v@, i as int)); }
  loop 0 decreases v@.len() - i
  loop 0 after
    proof { lemma_slots_perm(v@); assert(p@ =~= slots(v@)); lemma_has_inv(p@); let q = choose|q: Seq<u32>| #[trigger] is_inv(p@, q); lemma_bucket(v@, q); assert(is_inv(q, p@)); }

fn maybe_stable_sort_using_key sig=/\(.*const std::vector/ targs=/<0,/ rust=/sort_key_unstable_c/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - keys_below(v@, key_count as int)
  ensures
    - sorted_copy(v@, res@, lt_key())
  loop 0 invariant
    - i <= v@.len()
    - r@.len() == v@.len()
    - key_pos@.len() == key_count
    - forall|k: int| 0 <= k < key_count ==> #[trigger] key_pos@[k] == cless(v@, v@.len() as int, k) + cnt(v@, i as int, k)
    - forall|j: int| 0 <= j < i ==> r@[(#[trigger] slots(v@)[j]) as int] == v@[j]
  loop 0 begin
    proof { assert(ky(v@[i as int]) < key_count); lemma_slot(v@, i as int); lemma_slots_perm(v@); assert(slots(v@)[i as int] == slot(v@, i as int)); }
  loop 0 decreases v@.len() - i
  loop 0 after
    proof { lemma_slots_perm(v@); lemma_has_inv(slots(v@)); let q = choose|q: Seq<u32>| #[trigger] is_inv(slots(v@), q); lemma_bucket(v@, q); assert forall|x: int| 0 <= x < r@.len() implies #[trigger] r@[x] == v@[q[x] as int] by { assert(slots(v@)[q[x] as int] == x); } assert(rearranged_by(v@, r@, q)); }

fn maybe_stable_sort_using_key sig=/\(.*vector<.*>&&|vector<.*> &&/ targs=/<0,/ rust=/sort_key_unstable_m/
  ret res
  requires
    - old(v)@.len() < 0x1_0000_0000
    - keys_below(old(v)@, key_count as int)
  ensures
    - sorted_copy(old(v)@, res@, lt_key())
  loop 0 invariant
    - v@ == old(v)@
    - i <= v@.len()
    - r@.len() == v@.len()
    - key_pos@.len() == key_count
    - forall|k: int| 0 <= k < key_count ==> #[trigger] key_pos@[k] == cless(v@, v@.len() as int, k) + cnt(v@, i as int, k)
    - forall|j: int| 0 <= j < i ==> r@[(#[trigger] slots(v@)[j]) as int] == v@[j]
  loop 0 begin
    proof { assert(ky(v@[i as int]) < key_count); lemma_slot(v@, i as int); lemma_slots_perm(v@); assert(slots(v@)[i as int] == slot(v@, i as int)); }
  loop 0 decreases v@.len() - i
  loop 0 after
    proof { lemma_slots_perm(v@); lemma_has_inv(slots(v@)); let q = choose|q: Seq<u32>| #[trigger] is_inv(slots(v@), q); lemma_bucket(v@, q); assert forall|x: int| 0 <= x < r@.len() implies #[trigger] r@[x] == v@[q[x] as int] by { assert(slots(v@)[q[x] as int] == x); } assert(rearranged_by(v@, r@, q)); }

fn compute_sort_permutation_using_comparator targs=/CompareByKey/ rust=/compute_sort_permutation_using_comparator_key/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - sort_perm(v@, res@, lt_key())
  exit
    proof {
        let id = ident(v@.len() as int); let n = v@.len() as int;
        let pl = |a: u32, b: u32| key_less(v@[a as int], v@[b as int]);
        let q = choose|q: Seq<int>| #[trigger] rearranged(id, res@, 0, n, q);
        lemma_of_positions(v@, res@, id, lt_key(), pl, q);
    }

fn compute_sort_permutation_using_comparator targs=/vk::Less/ rust=/compute_sort_permutation_using_comparator_abs/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - swo_abs()
  ensures
    - sort_perm(v@, res@, lt_abs())
  exit
    proof {
        let id = ident(v@.len() as int); let n = v@.len() as int;
        let pl = |a: u32, b: u32| vk_less_spec(v@[a as int], v@[b as int]);
        let q = choose|q: Seq<int>| #[trigger] rearranged(id, res@, 0, n, q);
        lemma_of_positions(v@, res@, id, lt_abs(), pl, q);
    }

fn compute_sort_permutation_using_less rust=/compute_sort_permutation_using_less/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - sort_perm(v@, res@, lt_u32())
  exit
    proof {
        let id = ident(v@.len() as int); let n = v@.len() as int;
        let pl = |a: u32, b: u32| v@[a as int] < v@[b as int];
        let q = choose|q: Seq<int>| #[trigger] rearranged(id, res@, 0, n, q);
        lemma_of_positions(v@, res@, id, lt_u32(), pl, q);
    }

fn compute_inverse_sort_permutation_using_comparator targs=/CompareByKey/ rust=/compute_inverse_sort_permutation_using_comparator_key/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - exists|p: Seq<u32>| #[trigger] is_inv(p, res@) && sort_perm(v@, p, lt_key())

fn compute_inverse_sort_permutation_using_comparator targs=/vk::Less/ rust=/compute_inverse_sort_permutation_using_comparator_abs/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - swo_abs()
  ensures
    - exists|p: Seq<u32>| #[trigger] is_inv(p, res@) && sort_perm(v@, p, lt_abs())

fn compute_inverse_sort_permutation_using_less rust=/compute_inverse_sort_permutation_using_less/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - exists|p: Seq<u32>| #[trigger] is_inv(p, res@) && sort_perm(v@, p, lt_u32())

fn compute_sort_permutation_using_key
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - keys_below(v@, key_count as int)
  ensures
    - sort_perm(v@, res@, lt_key())

fn compute_inverse_sort_permutation_using_key
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - keys_below(v@, key_count as int)
  ensures
    - exists|p: Seq<u32>| #[trigger] is_inv(p, res@) && sort_perm(v@, p, lt_key())

fn sort_using_key sig=/\(.*const std::vector/ rust=/sort_using_key_c/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - keys_below(v@, key_count as int)
  ensures
    - sorted_copy(v@, res@, lt_key())

fn sort_using_comparator sig=/\(.*const std::vector/ targs=/CompareByKey/ rust=/sort_using_comparator_key_c/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - sorted_copy(v@, res@, lt_key())
  exit
    proof {
        let n = res@.len() as int; let less = |a: u32, b: u32| key_less(a, b);
        let q = choose|q: Seq<int>| #[trigger] rearranged(v@, res@, 0, n, q);
        assert(less =~= lt_key());
        lemma_of_copy(v@, res@, lt_key(), q);
    }

fn sort_using_comparator sig=/\(.*const std::vector/ targs=/vk::Less/ rust=/sort_using_comparator_abs_c/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - swo_abs()
  ensures
    - sorted_copy(v@, res@, lt_abs())
  exit
    proof {
        let n = res@.len() as int; let less = |a: u32, b: u32| vk_less_spec(a, b);
        let q = choose|q: Seq<int>| #[trigger] rearranged(v@, res@, 0, n, q);
        assert(less =~= lt_abs());
        lemma_of_copy(v@, res@, lt_abs(), q);
    }

fn sort_using_less sig=/\(.*const std::vector/ rust=/sort_using_less_c/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - sorted_copy(v@, res@, lt_u32())
  exit
    proof {
        let n = res@.len() as int; let less = |a: u32, b: u32| a < b;
        let q = choose|q: Seq<int>| #[trigger] rearranged(v@, res@, 0, n, q);
        assert(less =~= lt_u32());
        lemma_of_copy(v@, res@, lt_u32(), q);
    }

fn sort_using_key sig=/\(.*vector<.*>&&|vector<.*> &&/ rust=/sort_using_key_m/
  ret res
  requires
    - old(v)@.len() < 0x1_0000_0000
    - keys_below(old(v)@, key_count as int)
  ensures
    - sorted_copy(old(v)@, res@, lt_key())

fn sort_using_comparator sig=/\(.*vector<.*>&&|vector<.*> &&/ targs=/CompareByKey/ rust=/sort_using_comparator_key_m/
  ret res
  requires
    - old(v)@.len() < 0x1_0000_0000
  ensures
    - sorted_copy(old(v)@, res@, lt_key())
  exit
    proof {
        let n = res@.len() as int; let less = |a: u32, b: u32| key_less(a, b);
        let q = choose|q: Seq<int>| #[trigger] rearranged(old(v)@, res@, 0, n, q);
        assert(less =~= lt_key());
        lemma_of_copy(old(v)@, res@, lt_key(), q);
    }

fn sort_using_comparator sig=/\(.*vector<.*>&&|vector<.*> &&/ targs=/vk::Less/ rust=/sort_using_comparator_abs_m/
  ret res
  requires
    - old(v)@.len() < 0x1_0000_0000
    - swo_abs()
  ensures
    - sorted_copy(old(v)@, res@, lt_abs())
  exit
    proof {
        let n = res@.len() as int; let less = |a: u32, b: u32| vk_less_spec(a, b);
        let q = choose|q: Seq<int>| #[trigger] rearranged(old(v)@, res@, 0, n, q);
        assert(less =~= lt_abs());
        lemma_of_copy(old(v)@, res@, lt_abs(), q);
    }

fn sort_using_less sig=/\(.*vector<.*>&&|vector<.*> &&/ rust=/sort_using_less_m/
  ret res
  requires
    - old(v)@.len() < 0x1_0000_0000
  ensures
    - sorted_copy(old(v)@, res@, lt_u32())
  exit
    proof {
        let n = res@.len() as int; let less = |a: u32, b: u32| a < b;
        let q = choose|q: Seq<int>| #[trigger] rearranged(old(v)@, res@, 0, n, q);
        assert(less =~= lt_u32());
        lemma_of_copy(old(v)@, res@, lt_u32(), q);
    }

fn compute_stable_sort_permutation_using_comparator targs=/CompareByKey/ rust=/compute_stable_sort_permutation_using_comparator_key/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - stable_perm(v@, res@, lt_key())
  exit
    proof {
        let id = ident(v@.len() as int); let n = v@.len() as int;
        let pl = |a: u32, b: u32| key_less(v@[a as int], v@[b as int]);
        let q = choose|q: Seq<int>| #[trigger] rearranged(id, res@, 0, n, q) && stable_by(res@, 0, n, pl, q);
        lemma_of_positions(v@, res@, id, lt_key(), pl, q);
    }

fn compute_stable_sort_permutation_using_comparator targs=/vk::Less/ rust=/compute_stable_sort_permutation_using_comparator_abs/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - swo_abs()
  ensures
    - stable_perm(v@, res@, lt_abs())
  exit
    proof {
        let id = ident(v@.len() as int); let n = v@.len() as int;
        let pl = |a: u32, b: u32| vk_less_spec(v@[a as int], v@[b as int]);
        let q = choose|q: Seq<int>| #[trigger] rearranged(id, res@, 0, n, q) && stable_by(res@, 0, n, pl, q);
        lemma_of_positions(v@, res@, id, lt_abs(), pl, q);
    }

fn compute_stable_sort_permutation_using_less rust=/compute_stable_sort_permutation_using_less/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - stable_perm(v@, res@, lt_u32())
  exit
    proof {
        let id = ident(v@.len() as int); let n = v@.len() as int;
        let pl = |a: u32, b: u32| v@[a as int] < v@[b as int];
        let q = choose|q: Seq<int>| #[trigger] rearranged(id, res@, 0, n, q) && stable_by(res@, 0, n, pl, q);
        lemma_of_positions(v@, res@, id, lt_u32(), pl, q);
    }

fn compute_inverse_stable_sort_permutation_using_comparator targs=/CompareByKey/ rust=/compute_inverse_stable_sort_permutation_using_comparator_key/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - exists|p: Seq<u32>| #[trigger] is_inv(p, res@) && stable_perm(v@, p, lt_key())

fn compute_inverse_stable_sort_permutation_using_comparator targs=/vk::Less/ rust=/compute_inverse_stable_sort_permutation_using_comparator_abs/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - swo_abs()
  ensures
    - exists|p: Seq<u32>| #[trigger] is_inv(p, res@) && stable_perm(v@, p, lt_abs())

fn compute_inverse_stable_sort_permutation_using_less rust=/compute_inverse_stable_sort_permutation_using_less/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - exists|p: Seq<u32>| #[trigger] is_inv(p, res@) && stable_perm(v@, p, lt_u32())

fn compute_stable_sort_permutation_using_key
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - keys_below(v@, key_count as int)
  ensures
    - stable_perm(v@, res@, lt_key())

fn compute_inverse_stable_sort_permutation_using_key
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - keys_below(v@, key_count as int)
  ensures
    - exists|p: Seq<u32>| #[trigger] is_inv(p, res@) && stable_perm(v@, p, lt_key())

fn stable_sort_using_key sig=/\(.*const std::vector/ rust=/stable_sort_using_key_c/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - keys_below(v@, key_count as int)
  ensures
    - stably_sorted_copy(v@, res@, lt_key())

fn stable_sort_using_comparator sig=/\(.*const std::vector/ targs=/CompareByKey/ rust=/stable_sort_using_comparator_key_c/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - stably_sorted_copy(v@, res@, lt_key())
  exit
    proof {
        let n = res@.len() as int; let less = |a: u32, b: u32| key_less(a, b);
        let q = choose|q: Seq<int>| #[trigger] rearranged(v@, res@, 0, n, q) && stable_by(res@, 0, n, less, q);
        assert(less =~= lt_key());
        lemma_of_copy(v@, res@, lt_key(), q);
    }

fn stable_sort_using_comparator sig=/\(.*const std::vector/ targs=/vk::Less/ rust=/stable_sort_using_comparator_abs_c/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - swo_abs()
  ensures
    - stably_sorted_copy(v@, res@, lt_abs())
  exit
    proof {
        let n = res@.len() as int; let less = |a: u32, b: u32| vk_less_spec(a, b);
        let q = choose|q: Seq<int>| #[trigger] rearranged(v@, res@, 0, n, q) && stable_by(res@, 0, n, less, q);
        assert(less =~= lt_abs());
        lemma_of_copy(v@, res@, lt_abs(), q);
    }

fn stable_sort_using_less sig=/\(.*const std::vector/ rust=/stable_sort_using_less_c/
  ret res
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - stably_sorted_copy(v@, res@, lt_u32())
  exit
    proof {
        let n = res@.len() as int; let less = |a: u32, b: u32| a < b;
        let q = choose|q: Seq<int>| #[trigger] rearranged(v@, res@, 0, n, q) && stable_by(res@, 0, n, less, q);
        assert(less =~= lt_u32());
        lemma_of_copy(v@, res@, lt_u32(), q);
    }

fn stable_sort_using_key sig=/\(.*vector<.*>&&|vector<.*> &&/ rust=/stable_sort_using_key_m/
  ret res
  requires
    - old(v)@.len() < 0x1_0000_0000
    - keys_below(old(v)@, key_count as int)
  ensures
    - stably_sorted_copy(old(v)@, res@, lt_key())

fn stable_sort_using_comparator sig=/\(.*vector<.*>&&|vector<.*> &&/ targs=/CompareByKey/ rust=/stable_sort_using_comparator_key_m/
  ret res
  requires
    - old(v)@.len() < 0x1_0000_0000
  ensures
    - stably_sorted_copy(old(v)@, res@, lt_key())
  exit
    proof {
        let n = res@.len() as int; let less = |a: u32, b: u32| key_less(a, b);
        let q = choose|q: Seq<int>| #[trigger] rearranged(old(v)@, res@, 0, n, q) && stable_by(res@, 0, n, less, q);
        assert(less =~= lt_key());
        lemma_of_copy(old(v)@, res@, lt_key(), q);
    }

fn stable_sort_using_comparator sig=/\(.*vector<.*>&&|vector<.*> &&/ targs=/vk::Less/ rust=/stable_sort_using_comparator_abs_m/
  ret res
  requires
    - old(v)@.len() < 0x1_0000_0000
    - swo_abs()
  ensures
    - stably_sorted_copy(old(v)@, res@, lt_abs())
  exit
    proof {
        let n = res@.len() as int; let less = |a: u32, b: u32| vk_less_spec(a, b);
        let q = choose|q: Seq<int>| #[trigger] rearranged(old(v)@, res@, 0, n, q) && stable_by(res@, 0, n, less, q);
        assert(less =~= lt_abs());
        lemma_of_copy(old(v)@, res@, lt_abs(), q);
    }

fn stable_sort_using_less sig=/\(.*vector<.*>&&|vector<.*> &&/ rust=/stable_sort_using_less_m/
  ret res
  requires
    - old(v)@.len() < 0x1_0000_0000
  ensures
    - stably_sorted_copy(old(v)@, res@, lt_u32())
  exit
    proof {
        let n = res@.len() as int; let less = |a: u32, b: u32| a < b;
        let q = choose|q: Seq<int>| #[trigger] rearranged(old(v)@, res@, 0, n, q) && stable_by(res@, 0, n, less, q);
        assert(less =~= lt_u32());
        lemma_of_copy(old(v)@, res@, lt_u32(), q);
    }

fn is_sorted_using_less
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - r == (forall|k: int, l: int| 0 <= k <= l < v@.len() ==> #[trigger] v@[k] <= #[trigger] v@[l])
  exit
    proof { if r { assert forall|k: int, l: int| 0 <= k <= l < v@.len() implies #[trigger] v@[k] <= #[trigger] v@[l] by { lemma_adj_u32(v@, k, l); } } }
  loop 0 invariant
    - 1 <= i
    - v@.len() > 0 ==> i <= v@.len()
    - forall|k: int| 0 <= k < i - 1 && k < v@.len() - 1 ==> #[trigger] adj_le(v@, k)
  loop 0 decreases v@.len() + 1 - i

fn is_sorted_using_key
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - r == (forall|k: int, l: int| 0 <= k <= l < v@.len() ==> ky(#[trigger] v@[k]) <= ky(#[trigger] v@[l]))
  exit
    proof { if r { assert forall|k: int, l: int| 0 <= k <= l < v@.len() implies ky(#[trigger] v@[k]) <= ky(#[trigger] v@[l]) by { lemma_adj_key(v@, k, l); } } }
  loop 0 invariant
    - 1 <= i
    - v@.len() > 0 ==> i <= v@.len()
    - forall|k: int| 0 <= k < i - 1 && k < v@.len() - 1 ==> #[trigger] adj_kle(v@, k)
  loop 0 decreases v@.len() + 1 - i

fn is_sorted_using_comparator targs=/vk::Less/
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - r == (forall|k: int| 0 <= k < v@.len() - 1 ==> !#[trigger] adj_less(v@, k))
  loop 0 invariant
    - 1 <= i
    - v@.len() > 0 ==> i <= v@.len()
    - forall|k: int| 0 <= k < i - 1 && k < v@.len() - 1 ==> !#[trigger] adj_less(v@, k)
  loop 0 begin
    proof { assert(adj_less(v@, i - 1) == vk_less_spec(v@[i as int], v@[i - 1])); }
  loop 0 decreases v@.len() + 1 - i
