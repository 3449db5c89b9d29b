// adjacency array graph
pub open spec fn graph_ok(fo: Seq<u32>, head: Seq<u32>) -> bool {
    &&& 1 <= fo.len() < 0x1_0000_0000
    &&& head.len() < 0xFFFF_FFFF
    &&& fo[fo.len() - 1] == head.len()
    &&& forall|i: int, j: int| 0 <= i <= j < fo.len() ==> #[trigger] fo[i] <= #[trigger] fo[j]
}
// xy is an arc from x to y
pub open spec fn is_arc(fo: Seq<u32>, head: Seq<u32>, xy: int, x: int, y: int) -> bool { fo[x] <= xy < fo[x + 1] && head[xy] == y }
pub open spec fn lexi_le(a: Seq<u32>, b: Seq<u32>, x: int, y: int) -> bool { a[x] < a[y] || (a[x] == a[y] && b[x] <= b[y]) }
// p orders by a and then by b
pub open spec fn lexi_perm(a: Seq<u32>, b: Seq<u32>, p: Seq<u32>) -> bool {
    &&& is_perm(p) && p.len() == a.len()
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> lexi_le(a, b, #[trigger] p[i] as int, #[trigger] p[j] as int)
}
pub open spec fn below(v: Seq<u32>, n: int) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < n }
pub proof fn lemma_below(v: Seq<u32>, n: int) requires below(v, n), ensures keys_below(v, n) {}
pub proof fn lemma_lexi(a: Seq<u32>, b: Seq<u32>, ap: Seq<u32>, p: Seq<u32>, q: Seq<u32>, r: Seq<u32>)
    requires a.len() == b.len(), stable_perm(b, p, lt_key()), stable_perm(ap, q, lt_key()), ap.len() == a.len(), r.len() == a.len(),
        forall|k: int| 0 <= k < a.len() ==> #[trigger] ap[k] == a[p[k] as int],
        forall|k: int| 0 <= k < a.len() ==> #[trigger] r[k] == p[q[k] as int],
    ensures lexi_perm(a, b, r)
{
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) < r.len() by { assert(q[i] < q.len()); }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies #[trigger] r[i] != #[trigger] r[j] by { assert(q[i] != q[j]); assert(p[q[i] as int] != p[q[j] as int]); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies lexi_le(a, b, #[trigger] r[i] as int, #[trigger] r[j] as int) by {
        assert(!lt_key()(ap[q[j] as int], ap[q[i] as int]));
        assert(ap[q[i] as int] == a[p[q[i] as int] as int]); assert(ap[q[j] as int] == a[p[q[j] as int] as int]);
        if !lt_key()(ap[q[i] as int], ap[q[j] as int]) {
            assert(q[i] < q[j]);
            assert(!lt_key()(b[p[q[j] as int] as int], b[p[q[i] as int] as int]));
        }
    }
}
// the same with the inverse permutations ip, iq of p, q
pub proof fn lemma_lexi_inv(a: Seq<u32>, b: Seq<u32>, ap: Seq<u32>, ip: Seq<u32>, iq: Seq<u32>, r: Seq<u32>)
    requires a.len() == b.len(), a.len() < 0x1_0000_0000,
        exists|p: Seq<u32>| #[trigger] is_inv(p, ip) && stable_perm(b, p, lt_key()), exists|q: Seq<u32>| #[trigger] is_inv(q, iq) && stable_perm(ap, q, lt_key()),
        ap.len() == a.len(), r.len() == a.len(),
        forall|k: int| 0 <= k < a.len() ==> ap[(#[trigger] ip[k]) as int] == a[k],
        forall|k: int| 0 <= k < a.len() ==> #[trigger] r[k] == iq[ip[k] as int],
    ensures exists|s: Seq<u32>| #[trigger] is_inv(s, r) && lexi_perm(a, b, s),
{
    let p = choose|p: Seq<u32>| #[trigger] is_inv(p, ip) && stable_perm(b, p, lt_key());
    let q = choose|q: Seq<u32>| #[trigger] is_inv(q, iq) && stable_perm(ap, q, lt_key());
    let s = Seq::new(a.len(), |k: int| p[q[k] as int]);
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] ap[k] == a[p[k] as int] by { assert(ip[p[k] as int] == k); }
    lemma_lexi(a, b, ap, p, q, s);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < s.len() && r[s[i] as int] == i by { assert(q[i] < q.len()); assert(iq[q[i] as int] == i); assert(ip[p[q[i] as int] as int] == q[i]); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] r[i] < s.len() && s[r[i] as int] == i by { assert(ip[i] < ip.len()); assert(q[iq[ip[i] as int] as int] == ip[i]); assert(p[ip[i] as int] == i); }
    assert(is_inv(s, r));
}
pub open spec fn has_arc(fo: Seq<u32>, head: Seq<u32>, x: int, y: int) -> bool { exists|a: int| #[trigger] is_arc(fo, head, a, x, y) }
pub open spec fn node_path_ok(fo: Seq<u32>, head: Seq<u32>, p: Seq<u32>) -> bool {
    forall|i: int, j: int| 0 <= i && j == i + 1 && j < p.len() ==> has_arc(fo, head, #[trigger] p[i] as int, #[trigger] p[j] as int)
}
// w[p[k]] == v[k]
pub open spec fn inv_applied(p: Seq<u32>, v: Seq<u32>) -> Seq<u32> { Seq::new(v.len(), |y: int| v[pos_in(p, y)]) }
pub proof fn lemma_inv_applied(p: Seq<u32>, v: Seq<u32>)
    requires is_perm(p), p.len() == v.len(),
    ensures forall|k: int| 0 <= k < v.len() ==> inv_applied(p, v)[(#[trigger] p[k]) as int] == v[k],
        forall|w: Seq<u32>, s: Seq<u32>| #[trigger] stable_perm(w, s, lt_key()) && w.len() == v.len() && (forall|k: int| 0 <= k < v.len() ==> w[(#[trigger] p[k]) as int] == v[k]) ==> w == inv_applied(p, v)
{

    let u = inv_applied(p, v);
    assert forall|k: int| 0 <= k < v.len() implies u[(#[trigger] p[k]) as int] == v[k] by {
        let i = pos_in(p, p[k] as int); lemma_pos_in(p);
        assert(0 <= k < p.len() && p[k] == p[k]);
        assert(i == k);
    }
    assert forall|w: Seq<u32>, s: Seq<u32>| #[trigger] stable_perm(w, s, lt_key()) && w.len() == v.len() && (forall|k: int| 0 <= k < v.len() ==> w[(#[trigger] p[k]) as int] == v[k]) implies w == u by {
        assert forall|y: int| 0 <= y < w.len() implies w[y] == u[y] by { lemma_perm_surj(p, y); let i = pos_in(p, y); assert(w[p[i] as int] == v[i]); assert(u[p[i] as int] == v[i]); }
        assert(w =~= u);
    }
}
// node path -> arc path -> node path gives back the path
pub proof fn lemma_path_roundtrip(fo: Seq<u32>, head: Seq<u32>, np: Seq<u32>, ap: Seq<u32>, np2: Seq<u32>)
    requires np.len() >= 2, ap.len() == np.len() - 1, np2.len() == ap.len() + 1, np2[0] == np[0],
        forall|i: int| 0 <= i < ap.len() ==> is_arc(fo, head, (#[trigger] ap[i]) as int, np[i] as int, np[i + 1] as int),
        forall|i: int| 0 <= i < ap.len() ==> np2[i + 1] == head[#[trigger] ap[i] as int],
    ensures np2 == np
{
    assert forall|i: int| 0 <= i < np.len() implies np2[i] == np[i] by { if i > 0 { assert(is_arc(fo, head, ap[i - 1] as int, np[i - 1] as int, np[i - 1 + 1] as int)); } }
    assert(np2 =~= np);
}
