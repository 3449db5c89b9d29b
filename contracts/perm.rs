// a sequence is a permutation of its positions
pub open spec fn is_perm(s: Seq<u32>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < s.len()
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> #[trigger] s[i] != #[trigger] s[j]
}
pub open spec fn is_inv(p: Seq<u32>, q: Seq<u32>) -> bool {
    &&& p.len() == q.len()
    &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < p.len() && q[p[i] as int] == i
    &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] q[i] < p.len() && p[q[i] as int] == i
}
// every value occurs: injective on a finite range is surjective
pub proof fn lemma_perm_surj(s: Seq<u32>, y: int)
    requires is_perm(s), 0 <= y < s.len(),
    ensures exists|i: int| 0 <= i < s.len() && s[i] == y
{
    if !(exists|i: int| 0 <= i < s.len() && s[i] == y) {
        let t = Seq::new(s.len(), |i: int| s[i] as int);
        t.unique_seq_to_set();
        let n = s.len() as int;
        vstd::set_lib::lemma_int_range(0, n);
        let rem = vstd::set_lib::set_int_range(0, n).remove(y);
        assert(t.to_set().subset_of(rem)) by {
            assert forall|z: int| t.to_set().contains(z) implies rem.contains(z) by {
                let k = choose|k: int| 0 <= k < t.len() && t[k] == z;
                assert(s[k] < s.len());
            }
        }
        vstd::set_lib::lemma_len_subset(t.to_set(), rem);
        assert(false);
    }
}
pub proof fn lemma_perm_of_inv(p: Seq<u32>, q: Seq<u32>)
    requires is_inv(p, q), ensures is_perm(p), is_perm(q)
{
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { assert(q[p[i] as int] == i && q[p[j] as int] == j); }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies q[i] != q[j] by { assert(p[q[i] as int] == i && p[q[j] as int] == j); }
}
pub proof fn lemma_inv_half(p: Seq<u32>, q: Seq<u32>)
    requires is_perm(p), p.len() == q.len(), forall|i: int| 0 <= i < p.len() ==> q[(#[trigger] p[i]) as int] == i,
    ensures is_inv(p, q)
{
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] q[i] < p.len() && p[q[i] as int] == i by {
        lemma_perm_surj(p, i);
        let k = choose|k: int| 0 <= k < p.len() && p[k] == i;
        assert(q[p[k] as int] == k);
    }
}
// inverting twice gives back the original
pub proof fn lemma_double_inverse(p: Seq<u32>, q: Seq<u32>, r: Seq<u32>)
    requires is_inv(p, q), is_inv(q, r),
    ensures p =~= r
{ assert forall|i: int| 0 <= i < p.len() implies p[i] == r[i] by { assert(q[p[i] as int] == i); assert(r[q[p[i] as int] as int] == p[i]); } }
// applying p and then the inverse of p gives back the vector
pub proof fn lemma_apply_roundtrip(p: Seq<u32>, v: Seq<u32>, w: Seq<u32>, x: Seq<u32>)
    requires is_perm(p), p.len() == v.len(), w.len() == v.len(), x.len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] w[i] == v[p[i] as int],
        forall|i: int| 0 <= i < v.len() ==> x[(#[trigger] p[i]) as int] == w[i],
    ensures x =~= v
{
    assert forall|y: int| 0 <= y < v.len() implies x[y] == v[y] by {
        lemma_perm_surj(p, y);
        let k = choose|k: int| 0 <= k < p.len() && p[k] == y;
        assert(w[k] == v[p[k] as int]); assert(x[p[k] as int] == w[k]);
    }
}
pub open spec fn ident(n: int) -> Seq<u32> { Seq::new(n as nat, |k: int| k as u32) }
// the position of a value in a permutation
pub open spec fn pos_in(p: Seq<u32>, y: int) -> int { choose|i: int| 0 <= i < p.len() && p[i] == y }
pub proof fn lemma_pos_in(p: Seq<u32>)
    requires is_perm(p),
    ensures forall|y: int| 0 <= y < p.len() ==> 0 <= #[trigger] pos_in(p, y) < p.len() && p[pos_in(p, y)] == y
{ assert forall|y: int| 0 <= y < p.len() implies 0 <= #[trigger] pos_in(p, y) < p.len() && p[pos_in(p, y)] == y by { lemma_perm_surj(p, y); } }
