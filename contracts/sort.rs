// an arbitrary strict weak order
pub uninterp spec fn vk_less_spec(a: u32, b: u32) -> bool;
#[verifier::external_body]
pub fn vk_less(a: u32, b: u32) -> (r: bool) ensures r == vk_less_spec(a, b) { unimplemented!() }
pub open spec fn key_less(a: u32, b: u32) -> bool { vk_key_spec(a) < vk_key_spec(b) }
pub open spec fn ky(x: u32) -> int { vk_key_spec(x) as int }
pub open spec fn keys_below(v: Seq<u32>, n: int) -> bool { forall|i: int| 0 <= i < v.len() ==> ky(#[trigger] v[i]) < n }

pub open spec fn sort_perm(v: Seq<u32>, p: Seq<u32>, less: spec_fn(u32, u32) -> bool) -> bool {
    &&& p.len() == v.len() && is_perm(p)
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> !less(v[#[trigger] p[j] as int], v[#[trigger] p[i] as int])
}
pub open spec fn stable_perm(v: Seq<u32>, p: Seq<u32>, less: spec_fn(u32, u32) -> bool) -> bool {
    &&& sort_perm(v, p, less)
    &&& forall|i: int, j: int| 0 <= i < j < p.len() && !less(v[#[trigger] p[i] as int], v[#[trigger] p[j] as int]) ==> p[i] < p[j]
}
// w is v rearranged by a permutation q
pub open spec fn rearranged_by(v: Seq<u32>, w: Seq<u32>, q: Seq<u32>) -> bool {
    &&& w.len() == v.len() && q.len() == v.len()
    &&& forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == v[q[i] as int]
}
pub open spec fn sorted_copy(v: Seq<u32>, w: Seq<u32>, less: spec_fn(u32, u32) -> bool) -> bool {
    exists|q: Seq<u32>| #[trigger] rearranged_by(v, w, q) && sort_perm(v, q, less)
}
pub open spec fn stably_sorted_copy(v: Seq<u32>, w: Seq<u32>, less: spec_fn(u32, u32) -> bool) -> bool {
    exists|q: Seq<u32>| #[trigger] rearranged_by(v, w, q) && stable_perm(v, q, less)
}
pub open spec fn lt_u32() -> spec_fn(u32, u32) -> bool { |a: u32, b: u32| a < b }
pub open spec fn lt_key() -> spec_fn(u32, u32) -> bool { |a: u32, b: u32| key_less(a, b) }
pub open spec fn lt_abs() -> spec_fn(u32, u32) -> bool { |a: u32, b: u32| vk_less_spec(a, b) }

// ---- counting
pub open spec fn cnt(v: Seq<u32>, i: int, k: int) -> int decreases i { if i <= 0 { 0 } else { cnt(v, i - 1, k) + if ky(v[i - 1]) == k { 1int } else { 0 } } }
pub open spec fn cless(v: Seq<u32>, i: int, k: int) -> int decreases i { if i <= 0 { 0 } else { cless(v, i - 1, k) + if ky(v[i - 1]) < k { 1int } else { 0 } } }
pub proof fn lemma_cnt(v: Seq<u32>, i: int, j: int, k: int)
    requires 0 <= i <= j <= v.len(),
    ensures 0 <= cnt(v, i, k) <= cnt(v, j, k) <= cnt(v, i, k) + j - i, cnt(v, i, k) <= i,
        i < j && ky(v[i]) == k ==> cnt(v, i, k) < cnt(v, j, k)
    decreases j
{
    if i < j { lemma_cnt(v, i, j - 1, k); if i == j - 1 {} }
    else if i > 0 { lemma_cnt(v, i - 1, i - 1, k); }
}
pub proof fn lemma_cless(v: Seq<u32>, i: int, k: int)
    requires 0 <= i <= v.len(),
    ensures 0 <= cless(v, i, k) <= i, cless(v, i, k + 1) == cless(v, i, k) + cnt(v, i, k), k <= 0 ==> cless(v, i, k) == 0
    decreases i
{ if i > 0 { lemma_cless(v, i - 1, k); } }
pub proof fn lemma_cless_mono(v: Seq<u32>, i: int, k: int, l: int)
    requires 0 <= i <= v.len(), k <= l,
    ensures cless(v, i, k) <= cless(v, i, l)
    decreases i
{ if i > 0 { lemma_cless_mono(v, i - 1, k, l); } }
// the position of element i after stable counting sort
pub open spec fn slot(v: Seq<u32>, i: int) -> int { cless(v, v.len() as int, ky(v[i])) + cnt(v, i, ky(v[i])) }
pub proof fn lemma_slot(v: Seq<u32>, i: int)
    requires 0 <= i < v.len(),
    ensures 0 <= slot(v, i) < v.len()
{
    let n = v.len() as int; let k = ky(v[i]);
    lemma_cless(v, n, k); lemma_cnt(v, i, n, k); lemma_cless(v, n, k + 1);
}
pub proof fn lemma_slot_lt(v: Seq<u32>, i: int, j: int)
    requires 0 <= i < v.len(), 0 <= j < v.len(), ky(v[i]) < ky(v[j]) || (ky(v[i]) == ky(v[j]) && i < j),
    ensures slot(v, i) < slot(v, j)
{
    let n = v.len() as int;
    if ky(v[i]) == ky(v[j]) { lemma_cnt(v, i, j, ky(v[i])); }
    else {
        lemma_cnt(v, i, n, ky(v[i])); lemma_cless(v, n, ky(v[i])); lemma_cless_mono(v, n, ky(v[i]) + 1, ky(v[j])); lemma_cnt(v, j, j, ky(v[j]));
    }
}
pub open spec fn slots(v: Seq<u32>) -> Seq<u32> { Seq::new(v.len(), |i: int| slot(v, i) as u32) }
pub proof fn lemma_slots_perm(v: Seq<u32>)
    requires v.len() < 0x1_0000_0000,
    ensures is_perm(slots(v)), forall|i: int| 0 <= i < v.len() ==> #[trigger] slots(v)[i] == slot(v, i)
{
    let s = slots(v);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] s[i] == slot(v, i) && s[i] < v.len() by { lemma_slot(v, i); }
    assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies #[trigger] s[i] != #[trigger] s[j] by {
        lemma_slot(v, i); lemma_slot(v, j);
        if ky(v[i]) < ky(v[j]) || (ky(v[i]) == ky(v[j]) && i < j) { lemma_slot_lt(v, i, j); } else { lemma_slot_lt(v, j, i); }
    }
}
// p is the inverse of the slot assignment: a stable sort permutation
pub proof fn lemma_bucket(v: Seq<u32>, p: Seq<u32>)
    requires v.len() < 0x1_0000_0000, is_inv(slots(v), p),
    ensures stable_perm(v, p, lt_key())
{
    lemma_slots_perm(v);
    lemma_perm_of_inv(slots(v), p);
    let s = slots(v);
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies !lt_key()(v[#[trigger] p[j] as int], v[#[trigger] p[i] as int]) && (!lt_key()(v[p[i] as int], v[p[j] as int]) ==> p[i] < p[j]) by {
        assert(s[p[i] as int] == i); assert(s[p[j] as int] == j);
        let a = p[i] as int; let b = p[j] as int;
        assert(slot(v, a) == i); assert(slot(v, b) == j);
        if ky(v[b]) < ky(v[a]) || (ky(v[a]) == ky(v[b]) && b < a) { lemma_slot_lt(v, b, a); }
    }
}
pub open spec fn swo_abs() -> bool {
    &&& forall|a: u32| !#[trigger] vk_less_spec(a, a)
    &&& forall|a: u32, b: u32, c: u32| #[trigger] vk_less_spec(a, b) && #[trigger] vk_less_spec(b, c) ==> vk_less_spec(a, c)
    &&& forall|a: u32, b: u32, c: u32| !#[trigger] vk_less_spec(a, b) && !vk_less_spec(b, a) && !#[trigger] vk_less_spec(b, c) && !vk_less_spec(c, b) ==> !vk_less_spec(a, c)
}
// sorting the positions
pub proof fn lemma_of_positions(v: Seq<u32>, p: Seq<u32>, id: Seq<u32>, less: spec_fn(u32, u32) -> bool, pl: spec_fn(u32, u32) -> bool, q: Seq<int>)
    requires id.len() == v.len(), v.len() < 0x1_0000_0000, forall|k: int| 0 <= k < v.len() ==> #[trigger] id[k] == k,
        forall|a: u32, b: u32| a < v.len() && b < v.len() ==> #[trigger] pl(a, b) == less(v[a as int], v[b as int]),
        rearranged(id, p, 0, v.len() as int, q), ordered_by(p, 0, v.len() as int, pl),
    ensures sort_perm(v, p, less), stable_by(p, 0, v.len() as int, pl, q) ==> stable_perm(v, p, less)
{
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] < p.len() && p[i] == q[i] by { assert(p[i] == id[q[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies !less(v[#[trigger] p[j] as int], v[#[trigger] p[i] as int]) by { assert(!pl(p[j], p[i])); assert(p[i] == q[i] && p[j] == q[j]); }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies #[trigger] p[i] != #[trigger] p[j] by { assert(p[i] == q[i] && p[j] == q[j]); if i < j {} else { assert(q[j] != q[i]); } }
    if stable_by(p, 0, v.len() as int, pl, q) {
        assert forall|i: int, j: int| 0 <= i < j < p.len() && !less(v[#[trigger] p[i] as int], v[#[trigger] p[j] as int]) implies p[i] < p[j] by { assert(!pl(p[i], p[j])); assert(p[i] == q[i] && p[j] == q[j]); }
    }
}
pub proof fn lemma_of_copy(v: Seq<u32>, w: Seq<u32>, less: spec_fn(u32, u32) -> bool, q: Seq<int>)
    requires v.len() < 0x1_0000_0000, rearranged(v, w, 0, v.len() as int, q), ordered_by(w, 0, v.len() as int, less),
    ensures sorted_copy(v, w, less), stable_by(w, 0, v.len() as int, less, q) ==> stably_sorted_copy(v, w, less)
{
    let p = Seq::new(v.len(), |i: int| q[i] as u32);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == q[i] && w[i] == v[p[i] as int] by { assert(0 <= q[i] < w.len()); }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies #[trigger] p[i] != #[trigger] p[j] by { if i < j { assert(q[i] != q[j]); } else { assert(q[j] != q[i]); } }
    assert(rearranged_by(v, w, p));
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies !less(v[#[trigger] p[j] as int], v[#[trigger] p[i] as int]) by { assert(!less(w[j], w[i])); }
    assert(sort_perm(v, p, less));
    if stable_by(w, 0, v.len() as int, less, q) {
        assert forall|i: int, j: int| 0 <= i < j < p.len() && !less(v[#[trigger] p[i] as int], v[#[trigger] p[j] as int]) implies p[i] < p[j] by { assert(!less(w[i], w[j])); }
    }
}
pub open spec fn adj_less(v: Seq<u32>, k: int) -> bool { vk_less_spec(v[k + 1], v[k]) }
pub proof fn lemma_adj_u32(v: Seq<u32>, i: int, j: int)
    requires forall|k: int| 0 <= k < v.len() - 1 ==> #[trigger] adj_le(v, k), 0 <= i <= j < v.len(),
    ensures v[i] <= v[j]
    decreases j - i
{ if i < j { lemma_adj_u32(v, i, j - 1); assert(adj_le(v, j - 1)); } }
pub proof fn lemma_adj_key(v: Seq<u32>, i: int, j: int)
    requires forall|k: int| 0 <= k < v.len() - 1 ==> #[trigger] adj_kle(v, k), 0 <= i <= j < v.len(),
    ensures ky(v[i]) <= ky(v[j])
    decreases j - i
{ if i < j { lemma_adj_key(v, i, j - 1); assert(adj_kle(v, j - 1)); } }
// every permutation has an inverse
pub proof fn lemma_has_inv(p: Seq<u32>)
    requires is_perm(p), p.len() < 0x1_0000_0000,
    ensures exists|q: Seq<u32>| #[trigger] is_inv(p, q)
{
    let q = Seq::new(p.len(), |y: int| (choose|i: int| 0 <= i < p.len() && p[i] == y) as u32);
    assert forall|y: int| 0 <= y < p.len() implies 0 <= #[trigger] q[y] < p.len() && p[q[y] as int] == y by { lemma_perm_surj(p, y); }
    assert forall|i: int| 0 <= i < p.len() implies q[(#[trigger] p[i]) as int] == i by { assert(p[q[p[i] as int] as int] == p[i]); }
    assert(is_inv(p, q));
}
pub open spec fn adj_le(v: Seq<u32>, k: int) -> bool { v[k] <= v[k + 1] }
pub open spec fn adj_kle(v: Seq<u32>, k: int) -> bool { ky(v[k]) <= ky(v[k + 1]) }
