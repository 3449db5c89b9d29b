fn is_sorted_using_less
  requires
    - v@.len() < 0x1_0000_0000
  ensures
    - r == sorted(v@)
  exit
    proof { if r { lemma_adj_sorted(v@); } }
  loop 0 invariant
    - 1 <= i
    - v@.len() > 0 ==> i <= v@.len()
    - forall|k: int| 0 <= k < i - 1 && k < v@.len() - 1 ==> #[trigger] v@[k] <= v@[k + 1]
  loop 0 decreases v@.len() + 1 - i

fn invert_vector
  ret res
  requires
    - v@.len() < 0x1_0000_0000
    - element_count < 0xFFFF_FFFF
    - sorted(v@)
    - below(v@, element_count as int)
  ensures
    - is_index(v@, res@, element_count as int)
  exit
    proof {
        let n = element_count as int;
        assert forall|k: int, p: int| 0 <= k < n && 0 <= p < v@.len() implies #[trigger] blk(res@, k, p) == (v@[p] == k) by { if k + 1 < n { assert(res@[k + 1] <= v@.len()); } assert(res@[k] <= v@.len()); }
    }
  loop 0 invariant
    - v@.len() > 0
    - index@.len() == element_count + 1
    - index@[0] == 0
    - i <= element_count
    - pos <= v@.len()
    - i == 0 ==> pos == 0
    - i > 0 ==> pos == index@[i - 1]
    - forall|k: int| 0 <= k < i ==> #[trigger] index@[k] <= v@.len()
    - forall|k: int, l: int| 0 <= k <= l < i ==> #[trigger] index@[k] <= #[trigger] index@[l]
    - forall|p: int, k: int| 0 <= k < i && 0 <= p < #[trigger] index@[k] ==> #[trigger] v@[p] < k
    - forall|p: int, k: int| 0 <= k < i && #[trigger] index@[k] <= p < v@.len() ==> #[trigger] v@[p] >= k
  loop 0 decreases element_count - i
  loop 1 invariant
    - pos <= v@.len()
    - forall|k: int| 0 <= k < i ==> #[trigger] index@[k] <= pos
    - i == 0 ==> pos == 0
    - forall|p: int| 0 <= p < pos ==> #[trigger] v@[p] < i
  loop 1 decreases v@.len() - pos

fn invert_inverse_vector
  ret res
  requires
    - 0 < sorted_index@.len() <= 0x1_0000_0000
    - is_offset(sorted_index@)
  ensures
    - is_index(res@, sorted_index@, sorted_index@.len() - 1)
    - sorted(res@)
  exit
    proof {
        let n = sorted_index@.len() - 1;
        let ix = sorted_index@;
        assert forall|k: int, p: int| 0 <= k < n && 0 <= p < res@.len() implies #[trigger] blk(ix, k, p) == (res@[p] == k) by { let l = lemma_block(ix, p, n); assert(blk(ix, l, p)); assert(res@[p] == l); }
        assert forall|p: int| 0 <= p < res@.len() implies #[trigger] res@[p] < n by { let l = lemma_block(ix, p, n); assert(blk(ix, l, p)); }
        assert forall|p: int, q: int| 0 <= p <= q < res@.len() implies #[trigger] res@[p] <= #[trigger] res@[q] by { let k = lemma_block(ix, p, n); let l = lemma_block(ix, q, n); assert(blk(ix, k, p)); assert(blk(ix, l, q)); if l < k { assert(ix[l + 1] <= ix[k]); } }
    }
  loop 0 invariant
    - i <= sorted_index@.len() - 1
    - v@.len() == sorted_index@[sorted_index@.len() - 1]
    - forall|k: int, p: int| 0 <= k < i && 0 <= p < v@.len() && #[trigger] blk(sorted_index@, k, p) ==> v@[p] == k
  loop 0 decreases sorted_index@.len() - 1 - i
  loop 1 invariant
    - sorted_index@[i as int] <= j <= sorted_index@[i + 1]
    - v@.len() == sorted_index@[sorted_index@.len() - 1]
    - forall|k: int, p: int| 0 <= k < i && 0 <= p < v@.len() && #[trigger] blk(sorted_index@, k, p) ==> v@[p] == k
    - forall|p: int| sorted_index@[i as int] <= p < j ==> #[trigger] v@[p] == i
  loop 1 before
    proof { assert(sorted_index@[i + 1] <= sorted_index@[sorted_index@.len() - 1]); assert(sorted_index@[i as int] <= sorted_index@[i + 1]); }
  loop 1 begin
    proof { assert(sorted_index@[i + 1] <= sorted_index@[sorted_index@.len() - 1]); assert(!blk(sorted_index@, i as int, -1)); assert forall|k: int| 0 <= k < i implies !#[trigger] blk(sorted_index@, k, j as int) by { assert(sorted_index@[k + 1] <= sorted_index@[i as int]); } }
  loop 1 decreases sorted_index@[i + 1] - j
