// position p lies in the block of k
pub open spec fn blk(idx: Seq<u32>, k: int, p: int) -> bool { idx[k] <= p < idx[k + 1] }
// idx delimits for each number below n the block of positions of v holding it
pub open spec fn is_index(v: Seq<u32>, idx: Seq<u32>, n: int) -> bool {
    &&& is_offset(idx)
    &&& idx.len() == n + 1
    &&& idx[n] == v.len()
    &&& forall|k: int, p: int| 0 <= k < n && 0 <= p < v.len() ==> #[trigger] blk(idx, k, p) == (v[p] == k)
    &&& below(v, n)
}
pub open spec fn sorted(v: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i <= j < v.len() ==> #[trigger] v[i] <= #[trigger] v[j] }
pub open spec fn below(v: Seq<u32>, n: int) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < n }
pub open spec fn is_offset(idx: Seq<u32>) -> bool { idx.len() > 0 && idx[0] == 0 && forall|i: int, j: int| 0 <= i <= j < idx.len() ==> #[trigger] idx[i] <= #[trigger] idx[j] }
pub proof fn lemma_adj_sorted(v: Seq<u32>)
    requires forall|i: int| 0 <= i < v.len() - 1 ==> #[trigger] v[i] <= v[i + 1],
    ensures sorted(v)
{
    assert forall|i: int, j: int| 0 <= i <= j < v.len() implies #[trigger] v[i] <= #[trigger] v[j] by { lemma_adj2(v, i, j); }
}
pub proof fn lemma_adj2(v: Seq<u32>, i: int, j: int)
    requires forall|i: int| 0 <= i < v.len() - 1 ==> #[trigger] v[i] <= v[i + 1], 0 <= i <= j < v.len(),
    ensures v[i] <= v[j]
    decreases j - i
{ if i < j { lemma_adj2(v, i, j - 1); assert(v[j - 1] <= v[j - 1 + 1]); } }
// the block of a position
pub proof fn lemma_block(idx: Seq<u32>, p: int, n: int) -> (k: int)
    requires is_offset(idx), idx.len() == n + 1, 0 <= p < idx[n],
    ensures 0 <= k < n, blk(idx, k, p),
    decreases n
{
    if p >= idx[n - 1] { n - 1 } else {
        let s = idx.drop_last();
        assert(forall|i: int| 0 <= i < n ==> s[i] == idx[i]);
        lemma_block(s, p, n - 1)
    }
}
// round trips: each of the two vectors determines the other
pub proof fn lemma_index_determines_vector(v: Seq<u32>, w: Seq<u32>, idx: Seq<u32>, n: int)
    requires is_index(v, idx, n), is_index(w, idx, n),
    ensures v == w
{
    assert forall|p: int| 0 <= p < v.len() implies v[p] == w[p] by {
        let k = lemma_block(idx, p, n);
        assert(blk(idx, k, p)); assert(v[p] == k); assert(w[p] == k);
    }
    assert(v =~= w);
}
pub proof fn lemma_vector_determines_index(v: Seq<u32>, a: Seq<u32>, b: Seq<u32>, n: int)
    requires is_index(v, a, n), is_index(v, b, n),
    ensures a == b
{
    assert forall|k: int| 0 <= k < n implies a[k] == b[k] by { lemma_vdi(v, a, b, n, k); }
    assert(a =~= b);
}
pub proof fn lemma_vdi(v: Seq<u32>, a: Seq<u32>, b: Seq<u32>, n: int, k: int)
    requires is_index(v, a, n), is_index(v, b, n), 0 <= k <= n,
    ensures a[k] == b[k]
    decreases n - k
{
    if k < n {
        lemma_vdi(v, a, b, n, k + 1);
        if a[k] < b[k] { assert(b[k + 1] <= b[n]); assert(blk(a, k, a[k] as int)); assert(!blk(b, k, a[k] as int)); }
        if b[k] < a[k] { assert(a[k + 1] <= a[n]); assert(blk(b, k, b[k] as int)); assert(!blk(a, k, b[k] as int)); }
    }
}
