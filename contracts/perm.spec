fn is_permutation
  requires
    - p@.len() < 0x1_0000_0000
  ensures
    - r == is_perm(p@)
  loop 0 invariant
    - idx_x <= p@.len()
    - found@.len() == p@.len()
    - forall|i: int| 0 <= i < idx_x ==> (#[trigger] p@[i]) < p@.len() && found@[p@[i] as int]
    - forall|i: int, j: int| 0 <= i < idx_x && 0 <= j < idx_x && i != j ==> #[trigger] p@[i] != #[trigger] p@[j]
    - forall|y: int| 0 <= y < p@.len() && #[trigger] found@[y] ==> exists|i: int| 0 <= i < idx_x && p@[i] == y
  loop 0 decreases p@.len() - idx_x

fn chain_permutation_first_left_then_right
  requires
    - p@.len() < 0x1_0000_0000
    - is_perm(p@)
    - is_perm(q@)
    - p@.len() == q@.len()
  ret res
  ensures
    - res@.len() == p@.len()
    - forall|k: int| 0 <= k < p@.len() ==> #[trigger] res@[k] == p@[q@[k] as int]
    - is_perm(res@)
  loop 0 invariant
    - i <= r@.len()
    - r@.len() == p@.len()
    - forall|k: int| 0 <= k < i ==> #[trigger] r@[k] == p@[q@[k] as int]
  loop 0 decreases r@.len() - i

fn chain_permutation_first_right_then_left
  requires
    - p@.len() < 0x1_0000_0000
    - is_perm(p@)
    - is_perm(q@)
    - p@.len() == q@.len()
  ret res
  ensures
    - res@.len() == p@.len()
    - forall|k: int| 0 <= k < p@.len() ==> #[trigger] res@[k] == q@[p@[k] as int]
    - is_perm(res@)

fn apply_permutation sig=/const std::vector<unsigned int.*> &, const std::vector/ rust=/apply_permutation_c/
  ret res
  requires
    - is_perm(p@)
    - p@.len() == v@.len()
    - p@.len() < 0x1_0000_0000
  ensures
    - res@.len() == v@.len()
    - forall|k: int| 0 <= k < v@.len() ==> #[trigger] res@[k] == v@[p@[k] as int]
  loop 0 invariant
    - i <= v@.len()
    - r@.len() == p@.len()
    - forall|k: int| 0 <= k < i ==> #[trigger] r@[k] == v@[p@[k] as int]
  loop 0 decreases v@.len() - i

fn apply_permutation sig=/&&/ rust=/apply_permutation_m/
  ret res
  requires
    - is_perm(p@)
    - p@.len() == old(v)@.len()
    - p@.len() < 0x1_0000_0000
  ensures
    - res@.len() == old(v)@.len()
    - forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] res@[k] == old(v)@[p@[k] as int]
  loop 0 invariant
    - v@ == old(v)@
    - i <= v@.len()
    - r@.len() == p@.len()
    - forall|k: int| 0 <= k < i ==> #[trigger] r@[k] == v@[p@[k] as int]
  loop 0 decreases v@.len() - i

fn apply_inverse_permutation sig=/const std::vector<unsigned int.*> &, const std::vector/ rust=/apply_inverse_permutation_c/
  ret res
  requires
    - is_perm(p@)
    - p@.len() == v@.len()
    - p@.len() < 0x1_0000_0000
  ensures
    - res@.len() == v@.len()
    - forall|k: int| 0 <= k < v@.len() ==> res@[(#[trigger] p@[k]) as int] == v@[k]
    - forall|y: int| 0 <= y < v@.len() ==> #[trigger] res@[y] == v@[pos_in(p@, y)] && 0 <= pos_in(p@, y) < v@.len() && p@[pos_in(p@, y)] == y
  exit
    proof { lemma_pos_in(p@); }
  loop 0 invariant
    - i <= v@.len()
    - r@.len() == p@.len()
    - forall|k: int| 0 <= k < i ==> r@[(#[trigger] p@[k]) as int] == v@[k]
  loop 0 decreases v@.len() - i

fn apply_inverse_permutation sig=/&&/ rust=/apply_inverse_permutation_m/
  ret res
  requires
    - is_perm(p@)
    - p@.len() == old(v)@.len()
    - p@.len() < 0x1_0000_0000
  ensures
    - res@.len() == old(v)@.len()
    - forall|k: int| 0 <= k < old(v)@.len() ==> res@[(#[trigger] p@[k]) as int] == old(v)@[k]
    - forall|y: int| 0 <= y < old(v)@.len() ==> #[trigger] res@[y] == old(v)@[pos_in(p@, y)] && 0 <= pos_in(p@, y) < old(v)@.len() && p@[pos_in(p@, y)] == y
  exit
    proof { lemma_pos_in(p@); }
  loop 0 invariant
    - v@ == old(v)@
    - i <= v@.len()
    - r@.len() == p@.len()
    - forall|k: int| 0 <= k < i ==> r@[(#[trigger] p@[k]) as int] == v@[k]
  loop 0 decreases v@.len() - i

fn inplace_apply_permutation_to_elements_of
  requires
    - is_perm(p@)
    - p@.len() < 0x1_0000_0000
    - old(v)@.len() < 0x1_0000_0000
    - forall|k: int| 0 <= k < old(v)@.len() ==> (#[trigger] old(v)@[k]) < p@.len()
  ensures
    - final(v)@.len() == old(v)@.len()
    - forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] final(v)@[k] == p@[old(v)@[k] as int]
  loop 0 invariant
    - i <= v@.len()
    - v@.len() == old(v)@.len()
    - forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == if k < i { p@[old(v)@[k] as int] } else { old(v)@[k] }
  loop 0 decreases v@.len() - i

fn apply_permutation_to_elements_of
  ret res
  requires
    - is_perm(p@)
    - p@.len() < 0x1_0000_0000
    - v@.len() < 0x1_0000_0000
    - forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]) < p@.len()
  ensures
    - res@.len() == v@.len()
    - forall|k: int| 0 <= k < v@.len() ==> #[trigger] res@[k] == p@[v@[k] as int]

fn inplace_apply_permutation_to_possibly_invalid_elements_of
  requires
    - is_perm(p@)
    - p@.len() < 0x1_0000_0000
    - old(v)@.len() < 0x1_0000_0000
    - forall|k: int| 0 <= k < old(v)@.len() ==> (#[trigger] old(v)@[k]) < p@.len() || old(v)@[k] == 0xFFFF_FFFF
  ensures
    - final(v)@.len() == old(v)@.len()
    - forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] final(v)@[k] == if old(v)@[k] == 0xFFFF_FFFF { old(v)@[k] } else { p@[old(v)@[k] as int] }
  loop 0 invariant
    - i <= v@.len()
    - v@.len() == old(v)@.len()
    - forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == if k < i && old(v)@[k] != 0xFFFF_FFFF { p@[old(v)@[k] as int] } else { old(v)@[k] }
  loop 0 decreases v@.len() - i

fn apply_permutation_to_possibly_invalid_elements_of
  ret res
  requires
    - is_perm(p@)
    - p@.len() < 0x1_0000_0000
    - v@.len() < 0x1_0000_0000
    - forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]) < p@.len() || v@[k] == 0xFFFF_FFFF
  ensures
    - res@.len() == v@.len()
    - forall|k: int| 0 <= k < v@.len() ==> #[trigger] res@[k] == if v@[k] == 0xFFFF_FFFF { v@[k] } else { p@[v@[k] as int] }

fn invert_permutation
  ret res
  requires
    - is_perm(p@)
    - p@.len() < 0x1_0000_0000
  ensures
    - is_inv(p@, res@)
    - is_perm(res@)
  exit
    proof { lemma_inv_half(p@, res@); lemma_perm_of_inv(p@, res@); }
  loop 0 invariant
    - i <= p@.len()
    - inv_p@.len() == p@.len()
    - forall|k: int| 0 <= k < i ==> inv_p@[(#[trigger] p@[k]) as int] == k
  loop 0 decreases p@.len() - i

fn identity_permutation
  ret res
  ensures
    - res@.len() == n
    - forall|k: int| 0 <= k < n ==> #[trigger] res@[k] == k
    - is_perm(res@)
    - res@ == ident(n as int)
  exit
    proof { assert(res@ =~= ident(n as int)); }
  loop 0 invariant
    - i <= n
    - p@.len() == n
    - forall|k: int| 0 <= k < i ==> #[trigger] p@[k] == k
  loop 0 decreases n - i
