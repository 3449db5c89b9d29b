// ---- chordal supergraph
// (x, y) is arc a of the arc list
pub open spec fn lst(ut: Seq<u32>, uh: Seq<u32>, a: int, x: int, y: int) -> bool { 0 <= a < ut.len() && ut[a] == x && uh[a] == y }
pub open spec fn lst_ex(ut: Seq<u32>, uh: Seq<u32>, x: int, y: int) -> bool { exists|a: int| #[trigger] lst(ut, uh, a, x, y) }
pub open spec fn lex_lt(ut: Seq<u32>, uh: Seq<u32>, a: int, b: int) -> bool { ut[a] < ut[b] || (ut[a] == ut[b] && uh[a] < uh[b]) }
// arcs point up, ordered by tail and then by head, no arc twice
pub open spec fn up_list(ut: Seq<u32>, uh: Seq<u32>, n: int) -> bool {
    &&& ut.len() == uh.len()
    &&& forall|a: int| 0 <= a < ut.len() ==> (#[trigger] ut[a]) < uh[a] < n
    &&& forall|a: int, b: int| 0 <= a < b < ut.len() ==> #[trigger] lex_lt(ut, uh, a, b)
}
#[verifier::opaque]
pub open spec fn chordal_list(ut: Seq<u32>, uh: Seq<u32>) -> bool {
    forall|b: int, m: int| 0 <= b < m < ut.len() && #[trigger] ut[b] == #[trigger] ut[m] ==> lst_ex(ut, uh, uh[b] as int, uh[m] as int)
}
#[verifier::opaque]
pub open spec fn covers(ut: Seq<u32>, uh: Seq<u32>, tail: Seq<u32>, head: Seq<u32>) -> bool {
    forall|i: int| 0 <= i < tail.len() && (#[trigger] tail[i]) < head[i] ==> lst_ex(ut, uh, tail[i] as int, head[i] as int)
}
pub type NV = Seq<Vec<u32>>;
pub open spec fn memb(v: NV, x: int, y: u32) -> bool { occ(v[x]@, 0, v[x]@.len() as int, y) }
pub open spec fn inc(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
// neighbour lists point up
pub open spec fn nv_up(v: NV, n: int) -> bool { v.len() == n && forall|x: int, k: int| 0 <= x < n && 0 <= k < v[x]@.len() ==> x < (#[trigger] v[x]@[k]) < n }
pub open spec fn nv_inc(v: NV, lo: int, hi: int) -> bool { forall|x: int| lo <= x < hi ==> inc(#[trigger] v[x]@) }
pub open spec fn nv_covers(v: NV, tail: Seq<u32>, head: Seq<u32>, k: int) -> bool {
    forall|i: int| 0 <= i < k && (#[trigger] tail[i]) < head[i] ==> memb(v, tail[i] as int, head[i])
}
pub open spec fn nv_short(v: NV, b: int) -> bool { forall|x: int| 0 <= x < v.len() ==> (#[trigger] v[x]@).len() <= b }
// the neighbours of x other than the lowest are neighbours of the lowest
pub open spec fn passed(v: NV, x: int) -> bool { v[x]@.len() > 0 ==> forall|y: u32| #[trigger] memb(v, x, y) && y != v[x]@[0] ==> memb(v, v[x]@[0] as int, y) }
pub open spec fn nv_passed(v: NV, n: int) -> bool { forall|x: int| 0 <= x < n ==> #[trigger] passed(v, x) }
// the arcs listed are those of the nodes below n, and the first k of node n
pub open spec fn out_ok(v: NV, ut: Seq<u32>, uh: Seq<u32>, n: int, k: int) -> bool {
    &&& forall|a: int| 0 <= a < ut.len() ==> (#[trigger] ut[a]) <= n && memb(v, ut[a] as int, uh[a]) && (ut[a] == n ==> occ(v[n]@, 0, k, uh[a]))
    &&& forall|x: int, y: u32| 0 <= x < n && #[trigger] memb(v, x, y) ==> lst_ex(ut, uh, x, y as int)
    &&& forall|j: int| 0 <= j < k ==> lst_ex(ut, uh, n, (#[trigger] v[n]@[j]) as int)
}
pub proof fn lemma_inc_len(s: Seq<u32>, n: int)
    requires inc(s), n >= 0, forall|k: int| 0 <= k < s.len() ==> 0 <= (#[trigger] s[k]) < n,
    ensures s.len() <= n
    decreases s.len()
{ if s.len() > 0 { let l = s.last() as int; assert(s.drop_last().len() == s.len() - 1); assert forall|k: int| 0 <= k < s.len() - 1 implies 0 <= #[trigger] s.drop_last()[k] < l by { assert(s[k] < s[s.len() - 1]); } lemma_inc_len(s.drop_last(), l); } }
pub proof fn lemma_push_memb(v: NV, w: NV, x: int, y: u32)
    requires 0 <= x < v.len(), w.len() == v.len(), w[x]@ == v[x]@.push(y), forall|z: int| 0 <= z < v.len() && z != x ==> #[trigger] w[z] == v[z],
    ensures forall|z: int, u: u32| 0 <= z < v.len() && #[trigger] memb(v, z, u) ==> memb(w, z, u), memb(w, x, y)
{
    assert forall|z: int, u: u32| 0 <= z < v.len() && #[trigger] memb(v, z, u) implies memb(w, z, u) by {
        let i = choose|i: int| 0 <= i < v[z]@.len() && v[z]@[i] == u;
        assert(w[z]@[i] == u);
    }
    assert(w[x]@[v[x]@.len() as int] == y);
}
// replacing list x by one with the same members (and maybe more)
pub proof fn lemma_grow(v: NV, w: NV, x: int, n: int, m: int, tail: Seq<u32>, head: Seq<u32>)
    requires 0 <= x < n, v.len() == n, w.len() == n, 0 <= m <= n, m <= x, forall|z: int| 0 <= z < n && z != x ==> #[trigger] w[z] == v[z],
        forall|u: u32| #[trigger] memb(v, x, u) ==> memb(w, x, u), nv_covers(v, tail, head, tail.len() as int), nv_passed(v, m),
        forall|i: int| 0 <= i < tail.len() ==> (#[trigger] tail[i]) < n,
        nv_up(v, n),
    ensures nv_covers(w, tail, head, tail.len() as int), nv_passed(w, m), forall|z: int, u: u32| 0 <= z < n && #[trigger] memb(v, z, u) ==> memb(w, z, u)
{
    assert forall|z: int, u: u32| 0 <= z < n && #[trigger] memb(v, z, u) implies memb(w, z, u) by {}
    assert forall|z: int| 0 <= z < m implies #[trigger] passed(w, z) by {
        assert(w[z] == v[z]); assert(passed(v, z));
        if w[z]@.len() > 0 {
            let p = v[z]@[0] as int;
            assert(p < n);
            assert forall|y: u32| #[trigger] memb(w, z, y) && y != w[z]@[0] implies memb(w, w[z]@[0] as int, y) by { assert(memb(v, z, y)); assert(memb(v, p, y)); }
        }
    }
}
pub proof fn lemma_chordal_nv(v: NV, n: int, x: int, y: u32, z: u32)
    requires nv_up(v, n), nv_inc(v, 0, n), nv_passed(v, n), 0 <= x < n, memb(v, x, y), memb(v, x, z), y < z,
    ensures y < n, memb(v, y as int, z)
    decreases n - x
{
    let p = v[x]@[0];
    let i = choose|i: int| 0 <= i < v[x]@.len() && v[x]@[i] == y;
    let j = choose|i: int| 0 <= i < v[x]@.len() && v[x]@[i] == z;
    assert(inc(v[x]@));
    assert(x < v[x]@[i] < n && x < v[x]@[0] < n && x < v[x]@[j] < n);
    assert(passed(v, x));
    if j == 0 { assert(i > 0); assert(v[x]@[0] < v[x]@[i]); }
    assert(v[x]@[0] < v[x]@[j]);
    assert(memb(v, p as int, z));
    if y != p { assert(memb(v, p as int, y)); lemma_chordal_nv(v, n, p as int, y, z); }
}
pub proof fn lemma_out(v: NV, ut: Seq<u32>, uh: Seq<u32>, n: int, tail: Seq<u32>, head: Seq<u32>)
    requires nv_up(v, n), nv_inc(v, 0, n), nv_passed(v, n), out_ok(v, ut, uh, n, 0), ut.len() == uh.len(), nv_covers(v, tail, head, tail.len() as int), up_list(ut, uh, n),
        forall|i: int| 0 <= i < tail.len() ==> (#[trigger] tail[i]) < n,
    ensures chordal_list(ut, uh), covers(ut, uh, tail, head)
{
    reveal(chordal_list); reveal(covers);
    assert forall|b: int, m: int| 0 <= b < m < ut.len() && #[trigger] ut[b] == #[trigger] ut[m] implies lst_ex(ut, uh, uh[b] as int, uh[m] as int) by {
        assert(lex_lt(ut, uh, b, m)); assert(ut[b] < uh[b] < n);
        lemma_chordal_nv(v, n, ut[b] as int, uh[b], uh[m]);
    }
    assert forall|i: int| 0 <= i < tail.len() && (#[trigger] tail[i]) < head[i] implies lst_ex(ut, uh, tail[i] as int, head[i] as int) by {}
}
pub proof fn lemma_emit(v: NV, ut: Seq<u32>, uh: Seq<u32>, ut2: Seq<u32>, uh2: Seq<u32>, n: int, k: int, nn: int)
    requires out_ok(v, ut, uh, n, k), 0 <= n < nn, nv_up(v, nn), inc(v[n]@), 0 <= k < v[n]@.len(), up_list(ut, uh, nn), ut2 == ut.push(n as u32), uh2 == uh.push(v[n]@[k]), nn <= 0xFFFF_FFFF,
    ensures out_ok(v, ut2, uh2, n, k + 1), up_list(ut2, uh2, nn)
{
    let y = v[n]@[k];
    assert(n < v[n]@[k] < nn);
    assert(memb(v, n, y));
    assert forall|a: int| 0 <= a < ut2.len() implies (#[trigger] ut2[a]) <= n && memb(v, ut2[a] as int, uh2[a]) && (ut2[a] == n ==> occ(v[n]@, 0, k + 1, uh2[a])) by {
        if a < ut.len() { assert(ut2[a] == ut[a]); if ut[a] == n { let j = choose|j: int| 0 <= j < k && v[n]@[j] == uh[a]; assert(v[n]@[j] == uh2[a]); } } else { assert(v[n]@[k] == uh2[a]); }
    }
    assert forall|x: int, z: int| #[trigger] lst_ex(ut, uh, x, z) implies lst_ex(ut2, uh2, x, z) by { let a = choose|a: int| lst(ut, uh, a, x, z); assert(lst(ut2, uh2, a, x, z)); }
    assert(lst(ut2, uh2, ut.len() as int, n, y as int));
    assert forall|j: int| 0 <= j < k + 1 implies lst_ex(ut2, uh2, n, (#[trigger] v[n]@[j]) as int) by {}
    assert forall|x: int, z: u32| 0 <= x < n && #[trigger] memb(v, x, z) implies lst_ex(ut2, uh2, x, z as int) by { assert(lst_ex(ut, uh, x, z as int)); }
    assert forall|a: int, b: int| 0 <= a < b < ut2.len() implies #[trigger] lex_lt(ut2, uh2, a, b) by {
        if b < ut.len() { assert(lex_lt(ut, uh, a, b)); } else if ut[a] == n { let j = choose|j: int| 0 <= j < k && v[n]@[j] == uh[a]; assert(v[n]@[j] < v[n]@[k]); }
    }
}
pub proof fn lemma_emitted(v: NV, ut: Seq<u32>, uh: Seq<u32>, n: int, nn: int)
    requires 0 <= n < nn, out_ok(v, ut, uh, n, v[n]@.len() as int), nv_up(v, nn),
    ensures out_ok(v, ut, uh, n + 1, 0)
{
    assert forall|x: int, z: u32| 0 <= x < n + 1 && #[trigger] memb(v, x, z) implies lst_ex(ut, uh, x, z as int) by {
        if x == n { let j = choose|j: int| 0 <= j < v[n]@.len() && v[n]@[j] == z; assert(lst_ex(ut, uh, n, v[n]@[j] as int)); }
    }
}

// sorting and cutting off the end keep what occurs
pub proof fn lemma_perm_onto(q: Seq<int>, f: int, l: int, k: int)
    requires 0 <= f <= k < l <= q.len(), forall|i: int| f <= i < l ==> f <= #[trigger] q[i] < l, forall|i: int, j: int| 0 <= i < j < q.len() ==> #[trigger] q[i] != #[trigger] q[j],
    ensures exists|i: int| f <= i < l && #[trigger] q[i] == k
{
    let w = q.subrange(f, l);
    assert forall|i: int| 0 <= i < w.len() implies f <= #[trigger] w[i] < l by { assert(w[i] == q[f + i]); }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies #[trigger] w[i] != #[trigger] w[j] by { assert(w[i] == q[f + i] && w[j] == q[f + j]); }
    if !(exists|i: int| 0 <= i < w.len() && #[trigger] w[i] == k) {
        assert(w.no_duplicates());
        let s = w.to_set();
        w.unique_seq_to_set();
        let all = vstd::set_lib::set_int_range(f, l);
        vstd::set_lib::lemma_int_range(f, l);
        assert(s.subset_of(all.remove(k))) by { assert forall|y: int| #[trigger] s.contains(y) implies all.remove(k).contains(y) by { let i = choose|i: int| 0 <= i < w.len() && w[i] == y; assert(f <= w[i] < l); assert(w[i] != k); } }
        vstd::set_lib::lemma_len_subset(s, all.remove(k));
    } else {
        let i = choose|i: int| 0 <= i < w.len() && #[trigger] w[i] == k;
        assert(q[f + i] == k);
    }
}
pub proof fn lemma_occ_rearr(o: Seq<u32>, n: Seq<u32>, f: int, l: int, q: Seq<int>, x: u32)
    requires rearranged(o, n, f, l, q), 0 <= f <= l <= o.len()
    ensures occ(o, f, l, x) == occ(n, f, l, x)
{
    if occ(o, f, l, x) {
        let k = choose|k: int| f <= k < l && #[trigger] o[k] == x;
        lemma_perm_onto(q, f, l, k);
        let i = choose|i: int| f <= i < l && #[trigger] q[i] == k;
        assert(n[i] == x);
    }
    if occ(n, f, l, x) { let i = choose|i: int| f <= i < l && #[trigger] n[i] == x; assert(f <= q[i] < l); assert(o[q[i]] == x); }
}
pub proof fn lemma_occ_all()
    ensures
        forall|o: Seq<u32>, n: Seq<u32>, f: int, l: int, q: Seq<int>, x: u32| #![trigger rearranged(o, n, f, l, q), occ(o, f, l, x)] #![trigger rearranged(o, n, f, l, q), occ(n, f, l, x)]
            rearranged(o, n, f, l, q) && 0 <= f <= l <= o.len() ==> occ(o, f, l, x) == occ(n, f, l, x),
        forall|s: Seq<u32>, r: int, x: u32| #![trigger s.subrange(0, r), occ(s, 0, r, x)] #![trigger occ(s.subrange(0, r), 0, r, x)] 0 <= r <= s.len() ==> occ(s, 0, r, x) == occ(s.subrange(0, r), 0, r, x),
{
    assert forall|o: Seq<u32>, n: Seq<u32>, f: int, l: int, q: Seq<int>, x: u32| #[trigger] rearranged(o, n, f, l, q) && 0 <= f <= l <= o.len() implies #[trigger] occ(o, f, l, x) == occ(n, f, l, x) by { lemma_occ_rearr(o, n, f, l, q, x); }
    assert forall|o: Seq<u32>, n: Seq<u32>, f: int, l: int, q: Seq<int>, x: u32| #[trigger] rearranged(o, n, f, l, q) && 0 <= f <= l <= o.len() implies occ(o, f, l, x) == #[trigger] occ(n, f, l, x) by { lemma_occ_rearr(o, n, f, l, q, x); }
    assert forall|s: Seq<u32>, r: int, x: u32| 0 <= r <= s.len() implies occ(s, 0, r, x) == #[trigger] occ(s.subrange(0, r), 0, r, x) by {
        let t = s.subrange(0, r);
        if occ(s, 0, r, x) { let i = choose|i: int| 0 <= i < r && #[trigger] s[i] == x; assert(t[i] == x); }
        if occ(t, 0, r, x) { let i = choose|i: int| 0 <= i < r && #[trigger] t[i] == x; assert(s[i] == x); }
    }
}
// list x replaced by w[x], which has the members of v[x] and maybe more
pub proof fn lemma_repl(v: NV, w: NV, x: int, n: int)
    requires 0 <= x < n, v.len() == n, w.len() == n, nv_up(v, n), forall|z: int| 0 <= z < n && z != x ==> #[trigger] w[z] == v[z],
        forall|u: u32| #[trigger] memb(w, x, u) ==> x < u < n,
    ensures nv_up(w, n)
{
    assert forall|z: int, k: int| 0 <= z < n && 0 <= k < w[z]@.len() implies z < (#[trigger] w[z]@[k]) < n by {
        if z == x { assert(memb(w, x, w[x]@[k])); } else { assert(w[z] == v[z]); assert(v[z]@[k] == w[z]@[k]); }
    }
}
pub proof fn lemma_memb_up(v: NV, x: int, n: int)
    requires 0 <= x < n, nv_up(v, n)
    ensures forall|u: u32| #[trigger] memb(v, x, u) ==> x < u < n
{
    assert forall|u: u32| #[trigger] memb(v, x, u) implies x < u < n by { let i = choose|i: int| 0 <= i < v[x]@.len() && v[x]@[i] == u; assert(v[x]@[i] == u); }
}

// node n hands its neighbours but the lowest to the lowest
pub proof fn lemma_pass(v: NV, w: NV, n: int, nn: int, tail: Seq<u32>, head: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>)
    requires 0 <= n < nn, nv_up(v, nn), v[n]@.len() > 0, w.len() == nn, nv_inc(v, 0, nn), nv_covers(v, tail, head, tail.len() as int), nv_passed(v, n), out_ok(v, ut, uh, n, 0),
        forall|i: int| 0 <= i < tail.len() ==> (#[trigger] tail[i]) < nn,
        forall|z: int| 0 <= z < nn && z != v[n]@[0] ==> #[trigger] w[z] == v[z],
        inc(w[v[n]@[0] as int]@),
        forall|u: u32| #[trigger] occ(w[v[n]@[0] as int]@, 0, w[v[n]@[0] as int]@.len() as int, u) == (occ(v[n]@, 1, v[n]@.len() as int, u) || occ(v[v[n]@[0] as int]@, 0, v[v[n]@[0] as int]@.len() as int, u)),
    ensures nv_up(w, nn), nv_inc(w, 0, nn), nv_covers(w, tail, head, tail.len() as int), nv_passed(w, n + 1), out_ok(w, ut, uh, n, 0), w[n] == v[n]
{
    let p = v[n]@[0] as int;
    assert(n < v[n]@[0] < nn);
    assert(inc(v[n]@));
    assert forall|u: u32| #[trigger] memb(w, p, u) implies p < u < nn by {
        if occ(v[n]@, 1, v[n]@.len() as int, u) { let i = choose|i: int| 1 <= i < v[n]@.len() && #[trigger] v[n]@[i] == u; assert(v[n]@[0] < v[n]@[i]); assert(v[n]@[i] < nn); }
        else { lemma_memb_up(v, p, nn); assert(memb(v, p, u)); }
    }
    lemma_repl(v, w, p, nn);
    assert forall|u: u32| #[trigger] memb(v, p, u) implies memb(w, p, u) by {}
    lemma_grow(v, w, p, nn, n, tail, head);
    assert(w[n] == v[n]);
    assert(passed(w, n)) by {
        assert forall|y: u32| #[trigger] memb(w, n, y) && y != w[n]@[0] implies memb(w, w[n]@[0] as int, y) by {
            let i = choose|i: int| 0 <= i < v[n]@.len() && #[trigger] v[n]@[i] == y;
            assert(1 <= i);
            assert(occ(v[n]@, 1, v[n]@.len() as int, y));
        }
    }
    assert forall|a: int| 0 <= a < ut.len() implies (#[trigger] ut[a]) <= n && memb(w, ut[a] as int, uh[a]) && (ut[a] == n ==> occ(w[n]@, 0, 0, uh[a])) by { assert(memb(v, ut[a] as int, uh[a])); }
    assert forall|x: int, y: u32| 0 <= x < n && #[trigger] memb(w, x, y) implies lst_ex(ut, uh, x, y as int) by { assert(w[x] == v[x]); assert(memb(v, x, y)); }
}

// ---- construction: input arcs in ranks
pub proof fn lemma_mapped_below(p: Seq<u32>, v: Seq<u32>, w: Seq<u32>, n: int)
    requires is_perm(p), p.len() == n, below(v, n), w.len() == v.len(), forall|k: int| 0 <= k < v.len() ==> #[trigger] w[k] == p[v[k] as int],
    ensures below(w, n)
{ assert forall|k: int| 0 <= k < w.len() implies #[trigger] w[k] < n by { assert(v[k] < n); assert(w[k] == p[v[k] as int]); assert(p[v[k] as int] < p.len()); } }
pub open spec fn lex_sorted(it: Seq<u32>, ih: Seq<u32>) -> bool { it.len() == ih.len() && forall|i: int, j: int| 0 <= i < j < it.len() ==> #[trigger] lexi_le(it, ih, i, j) }
// it, ih list the arcs rt, rh ordered by tail and head; entry k is arc id[k]
#[verifier::opaque]
pub open spec fn inp(rt: Seq<u32>, rh: Seq<u32>, it: Seq<u32>, ih: Seq<u32>, id: Seq<u32>) -> bool {
    &&& rt.len() == rh.len() == it.len() == ih.len() == id.len() && is_perm(id)
    &&& forall|k: int| 0 <= k < it.len() ==> #[trigger] it[k] == rt[id[k] as int] && ih[k] == rh[id[k] as int]
    &&& lex_sorted(it, ih)
}
pub proof fn lemma_inp(rt: Seq<u32>, rh: Seq<u32>, it: Seq<u32>, ih: Seq<u32>, id: Seq<u32>, n: int)
    requires rt.len() == rh.len(), it.len() == rt.len(), ih.len() == rh.len(), below(rt, n), below(rh, n), lexi_perm(rt, rh, id),
        forall|k: int| 0 <= k < id.len() ==> #[trigger] it[k] == rt[id[k] as int], forall|k: int| 0 <= k < rh.len() ==> #[trigger] ih[k] == rh[id[k] as int],
    ensures inp(rt, rh, it, ih, id), below(it, n), below(ih, n)
{
    reveal(inp);
    assert forall|i: int, j: int| 0 <= i < j < it.len() implies #[trigger] lexi_le(it, ih, i, j) by { assert(lexi_le(rt, rh, id[i] as int, id[j] as int)); assert(it[i] == rt[id[i] as int] && it[j] == rt[id[j] as int] && ih[i] == rh[id[i] as int] && ih[j] == rh[id[j] as int]); }
    assert forall|k: int| 0 <= k < it.len() implies #[trigger] it[k] < n by { assert(id[k] < id.len()); assert(rt[id[k] as int] < n); }
    assert forall|k: int| 0 <= k < ih.len() implies #[trigger] ih[k] < n by { assert(id[k] < id.len()); assert(ih[k] == rh[id[k] as int]); assert(rh[id[k] as int] < n); }
}
// the arcs rt, rh occur in st, sh in both directions
#[verifier::opaque]
pub open spec fn both(rt: Seq<u32>, rh: Seq<u32>, st: Seq<u32>, sh: Seq<u32>) -> bool {
    &&& st.len() == sh.len() && rt.len() == rh.len()
    &&& forall|j: int| 0 <= j < rt.len() ==> lst_ex(st, sh, #[trigger] rt[j] as int, rh[j] as int) && lst_ex(st, sh, rh[j] as int, rt[j] as int)
}
pub proof fn lemma_sym(rt: Seq<u32>, rh: Seq<u32>, it: Seq<u32>, ih: Seq<u32>, id: Seq<u32>, st: Seq<u32>, sh: Seq<u32>, n: int)
    requires inp(rt, rh, it, ih, id), below(it, n), below(ih, n), st.len() == 2 * it.len(), sh.len() == 2 * it.len(),
        forall|k: int| 0 <= k < it.len() ==> #[trigger] st[k] == it[k] && sh[k] == ih[k],
        forall|k: int| 0 <= k < it.len() ==> sh[#[trigger] (it.len() + k)] == it[k] && st[it.len() + k] == ih[k],
    ensures both(rt, rh, st, sh), below(st, n), below(sh, n)
{
    reveal(inp); reveal(both);
    let l = it.len() as int;
    assert forall|j: int| 0 <= j < rt.len() implies lst_ex(st, sh, #[trigger] rt[j] as int, rh[j] as int) && lst_ex(st, sh, rh[j] as int, rt[j] as int) by {
        lemma_perm_surj(id, j);
        let k = choose|k: int| 0 <= k < id.len() && id[k] == j;
        assert(it[k] == rt[j] && ih[k] == rh[j]);
        assert(st[k] == it[k]); assert(sh[l + k] == it[k]);
        assert(lst(st, sh, k, rt[j] as int, rh[j] as int));
        assert(lst(st, sh, l + k, rh[j] as int, rt[j] as int));
    }
    assert forall|k: int| 0 <= k < st.len() implies #[trigger] st[k] < n by { if k < l { assert(it[k] < n); } else { let q = k - l; assert(sh[l + q] == it[q]); assert(ih[q] < n); } }
    assert forall|k: int| 0 <= k < sh.len() implies #[trigger] sh[k] < n by { if k < l { assert(st[k] == it[k]); assert(ih[k] < n); } else { let q = k - l; assert(sh[l + q] == it[q]); assert(it[q] < n); } }
}
pub proof fn lemma_ex_perm(p: Seq<u32>)
    requires exists|s: Seq<u32>| #[trigger] is_inv(s, p) && is_perm(s),
    ensures is_perm(p)
{ let s = choose|s: Seq<u32>| #[trigger] is_inv(s, p) && is_perm(s);
  assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies #[trigger] p[i] != #[trigger] p[j] by { assert(s[p[i] as int] == i); assert(s[p[j] as int] == j); } }

pub proof fn lemma_both_perm(rt: Seq<u32>, rh: Seq<u32>, st: Seq<u32>, sh: Seq<u32>, p: Seq<u32>, st2: Seq<u32>, sh2: Seq<u32>, n: int)
    requires both(rt, rh, st, sh), is_perm(p), p.len() == st.len() == sh.len(), st2.len() == st.len(), sh2.len() == st.len(), below(st, n), below(sh, n),
        forall|k: int| 0 <= k < p.len() ==> st2[(#[trigger] p[k]) as int] == st[k],
        forall|k: int| 0 <= k < p.len() ==> sh2[(#[trigger] p[k]) as int] == sh[k],
    ensures both(rt, rh, st2, sh2), below(st2, n), below(sh2, n)
{
    reveal(both);
    assert forall|x: int, y: int| #[trigger] lst_ex(st, sh, x, y) implies lst_ex(st2, sh2, x, y) by { let a = choose|a: int| lst(st, sh, a, x, y); assert(p[a] < p.len()); assert(lst(st2, sh2, p[a] as int, x, y)); }
    assert forall|j: int| 0 <= j < rt.len() implies lst_ex(st2, sh2, #[trigger] rt[j] as int, rh[j] as int) && lst_ex(st2, sh2, rh[j] as int, rt[j] as int) by { assert(lst_ex(st, sh, rt[j] as int, rh[j] as int)); }
    assert forall|k: int| 0 <= k < st2.len() implies #[trigger] st2[k] < n by { lemma_perm_surj(p, k); let q = choose|q: int| 0 <= q < p.len() && p[q] == k; assert(st2[p[q] as int] == st[q]); }
    assert forall|k: int| 0 <= k < sh2.len() implies #[trigger] sh2[k] < n by { lemma_perm_surj(p, k); let q = choose|q: int| 0 <= q < p.len() && p[q] == k; assert(sh2[p[q] as int] == sh[q]); }
}
// positions of the set bits below k
pub open spec fn kix(f: &BitVector, k: int) -> Seq<int>
    decreases k
{ if k <= 0 { Seq::empty() } else if f.get(k - 1) { kix(f, k - 1).push(k - 1) } else { kix(f, k - 1) } }
pub proof fn lemma_kix(f: &BitVector, k: int)
    requires k >= 0
    ensures kix(f, k).len() == count(f.data_@, k), kix(f, k).len() <= k,
        forall|i: int| 0 <= i < kix(f, k).len() ==> 0 <= (#[trigger] kix(f, k)[i]) < k && f.get(kix(f, k)[i]) && count(f.data_@, kix(f, k)[i]) == i,
        forall|i: int, j: int| 0 <= i < j < kix(f, k).len() ==> (#[trigger] kix(f, k)[i]) < (#[trigger] kix(f, k)[j]),
        forall|p: int| 0 <= p < k && #[trigger] f.get(p) ==> 0 <= count(f.data_@, p) < kix(f, k).len() && kix(f, k)[count(f.data_@, p)] == p,
    decreases k
{
    if k > 0 {
        lemma_kix(f, k - 1);
        let s = kix(f, k - 1); let t = kix(f, k);
        if f.get(k - 1) {
            assert(t == s.push(k - 1));
            assert forall|i: int| 0 <= i < t.len() implies 0 <= (#[trigger] t[i]) < k && f.get(t[i]) && count(f.data_@, t[i]) == i by { if i < s.len() { assert(t[i] == s[i]); } }
            assert forall|p: int| 0 <= p < k && #[trigger] f.get(p) implies 0 <= count(f.data_@, p) < t.len() && t[count(f.data_@, p)] == p by { if p < k - 1 { assert(s[count(f.data_@, p)] == p); } }
        } else { assert(t == s); }
    }
}
pub proof fn lemma_kept_ix(f: &BitVector, s: Seq<u32>, k: int)
    requires 0 <= k <= s.len()
    ensures kept(f, s, k, true).len() == kix(f, k).len(), forall|i: int| 0 <= i < kix(f, k).len() ==> #[trigger] kept(f, s, k, true)[i] == s[kix(f, k)[i]]
    decreases k
{ if k > 0 { lemma_kept_ix(f, s, k - 1); } }
// keep the first of equal neighbours, drop loops
pub open spec fn first_eq(st: Seq<u32>, sh: Seq<u32>, k: int) -> bool { (k == 0 || sh[k] != sh[k - 1] || st[k] != st[k - 1]) && st[k] != sh[k] }
pub proof fn lemma_first_eq(st: Seq<u32>, sh: Seq<u32>, f: &BitVector, p: int) -> (q: int)
    requires 0 <= p < st.len() == sh.len(), st[p] != sh[p], forall|k: int| 0 <= k < st.len() ==> #[trigger] f.get(k) == first_eq(st, sh, k),
    ensures 0 <= q <= p, f.get(q), st[q] == st[p], sh[q] == sh[p]
    decreases p
{ assert(f.get(p) == first_eq(st, sh, p)); if f.get(p) { p } else { lemma_first_eq(st, sh, f, p - 1) } }
// the arcs other than loops occur in both directions
#[verifier::opaque]
pub open spec fn both_nl(rt: Seq<u32>, rh: Seq<u32>, st: Seq<u32>, sh: Seq<u32>) -> bool {
    &&& st.len() == sh.len() && rt.len() == rh.len()
    &&& forall|j: int| 0 <= j < rt.len() && #[trigger] rt[j] != rh[j] ==> lst_ex(st, sh, rt[j] as int, rh[j] as int) && lst_ex(st, sh, rh[j] as int, rt[j] as int)
}
pub proof fn lemma_kept_ex(st: Seq<u32>, sh: Seq<u32>, f: &BitVector, x: int, y: int)
    requires st.len() == sh.len(), forall|k: int| 0 <= k < st.len() ==> #[trigger] f.get(k) == first_eq(st, sh, k), lst_ex(st, sh, x, y), x != y,
    ensures lst_ex(kept(f, st, st.len() as int, true), kept(f, sh, sh.len() as int, true), x, y)
{
    let l = st.len() as int;
    let a = choose|a: int| lst(st, sh, a, x, y);
    let q = lemma_first_eq(st, sh, f, a);
    lemma_kix(f, l); lemma_kept_ix(f, st, l); lemma_kept_ix(f, sh, l);
    let i = count(f.data_@, q);
    assert(kix(f, l)[i] == q);
    assert(kept(f, st, l, true)[i] == st[kix(f, l)[i]]); assert(kept(f, sh, l, true)[i] == sh[kix(f, l)[i]]);
    assert(lst(kept(f, st, l, true), kept(f, sh, l, true), i, x, y));
}
pub proof fn lemma_kept_both(rt: Seq<u32>, rh: Seq<u32>, st: Seq<u32>, sh: Seq<u32>, f: &BitVector, n: int)
    requires both(rt, rh, st, sh), below(st, n), below(sh, n), forall|k: int| 0 <= k < st.len() ==> #[trigger] f.get(k) == first_eq(st, sh, k),
    ensures ({ let a = kept(f, st, st.len() as int, true); let b = kept(f, sh, sh.len() as int, true);
        both_nl(rt, rh, a, b) && below(a, n) && below(b, n) && a.len() == b.len() && a.len() <= st.len() })
{
    reveal(both); reveal(both_nl);
    let l = st.len() as int;
    let a = kept(f, st, l, true); let b = kept(f, sh, l, true);
    lemma_kix(f, l); lemma_kept_ix(f, st, l); lemma_kept_ix(f, sh, l);
    assert forall|j: int| 0 <= j < rt.len() && #[trigger] rt[j] != rh[j] implies lst_ex(a, b, rt[j] as int, rh[j] as int) && lst_ex(a, b, rh[j] as int, rt[j] as int) by {
        lemma_kept_ex(st, sh, f, rt[j] as int, rh[j] as int); lemma_kept_ex(st, sh, f, rh[j] as int, rt[j] as int);
    }
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] < n by { assert(a[k] == st[kix(f, l)[k]]); }
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] < n by { assert(b[k] == sh[kix(f, l)[k]]); }
}
// the hierarchy has an arc for each input arc that goes up
#[verifier::opaque]
pub open spec fn cov1(rt: Seq<u32>, rh: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>) -> bool {
    rt.len() == rh.len() && forall|j: int| 0 <= j < rt.len() && (#[trigger] rt[j]) < rh[j] ==> lst_ex(ut, uh, rt[j] as int, rh[j] as int)
}
pub open spec fn cov(rt: Seq<u32>, rh: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>) -> bool { cov1(rt, rh, ut, uh) && cov1(rh, rt, ut, uh) }
pub proof fn lemma_cov(rt: Seq<u32>, rh: Seq<u32>, st: Seq<u32>, sh: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>)
    requires both_nl(rt, rh, st, sh), covers(ut, uh, st, sh),
    ensures cov(rt, rh, ut, uh)
{
    reveal(both_nl); reveal(covers); reveal(cov1);
    assert forall|x: int, y: int| #[trigger] lst_ex(st, sh, x, y) && x < y implies lst_ex(ut, uh, x, y) by { let a = choose|a: int| lst(st, sh, a, x, y); assert(st[a] < sh[a]); }
    assert forall|j: int| 0 <= j < rt.len() && (#[trigger] rt[j]) < rh[j] implies lst_ex(ut, uh, rt[j] as int, rh[j] as int) by { assert(lst_ex(st, sh, rt[j] as int, rh[j] as int)); }
    assert forall|j: int| 0 <= j < rh.len() && (#[trigger] rh[j]) < rt[j] implies lst_ex(ut, uh, rh[j] as int, rt[j] as int) by { assert(rt[j] != rh[j]); assert(lst_ex(st, sh, rh[j] as int, rt[j] as int)); }
}
pub proof fn lemma_inc_perm_id(s: Seq<u32>, i: int)
    requires is_perm(s), forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j], 0 <= i < s.len(),
    ensures s[i] == i
    decreases i
{
    // s[i] >= i, and s[i] <= i as the later values are larger and below the length
    lemma_inc_ge(s, i); lemma_inc_le(s, i);
}
pub proof fn lemma_inc_ge(s: Seq<u32>, i: int) requires forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j], 0 <= i < s.len(), ensures s[i] >= i decreases i { if i > 0 { lemma_inc_ge(s, i - 1); assert(s[i - 1] < s[i]); } }
pub proof fn lemma_inc_le(s: Seq<u32>, i: int) requires is_perm(s), forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j], 0 <= i < s.len(), ensures s[i] <= i decreases s.len() - i { if i + 1 < s.len() { lemma_inc_le(s, i + 1); assert(s[i] < s[i + 1]); } else { assert(s[i] < s.len()); } }
// ordering an ordered list changes nothing
pub proof fn lemma_resort(ut: Seq<u32>, uh: Seq<u32>, p: Seq<u32>, n: int)
    requires up_list(ut, uh, n), p.len() == ut.len(), exists|s: Seq<u32>| #[trigger] is_inv(s, p) && lexi_perm(ut, uh, s),
    ensures is_perm(p), forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == i
{
    let s = choose|s: Seq<u32>| #[trigger] is_inv(s, p) && lexi_perm(ut, uh, s);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i] < #[trigger] s[j] by {
        assert(s[i] != s[j]); assert(s[i] < s.len() && s[j] < s.len());
        assert(lexi_le(ut, uh, s[i] as int, s[j] as int));
        if s[j] < s[i] { assert(lex_lt(ut, uh, s[j] as int, s[i] as int)); }
    }
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == i by { lemma_inc_perm_id(s, i); assert(p[s[i] as int] == i); }
}
pub proof fn lemma_up_sorted(ut: Seq<u32>, uh: Seq<u32>, n: int)
    requires up_list(ut, uh, n)
    ensures sorted(ut), below(ut, n), below(uh, n)
{
    assert forall|i: int, j: int| 0 <= i <= j < ut.len() implies #[trigger] ut[i] <= #[trigger] ut[j] by { if i < j { assert(lex_lt(ut, uh, i, j)); } }
    assert forall|i: int| 0 <= i < ut.len() implies #[trigger] ut[i] < n by {}
    assert forall|i: int| 0 <= i < uh.len() implies #[trigger] uh[i] < n by { assert(ut[i] < uh[i]); }
}

// ---- construction: the hierarchy arc of each input arc
pub open spec fn m1(rt: Seq<u32>, rh: Seq<u32>, l: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>, j: int) -> bool {
    (rt[j] == rh[j] ==> l[j] == 0xFFFF_FFFFu32) && (rt[j] < rh[j] ==> lst(ut, uh, l[j] as int, rt[j] as int, rh[j] as int))
}
pub open spec fn m2(rt: Seq<u32>, rh: Seq<u32>, l: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>, j: int) -> bool {
    rt[j] > rh[j] ==> lst(ut, uh, l[j] as int, rh[j] as int, rt[j] as int)
}
// after the first k entries of the ordered list
#[verifier::opaque]
pub open spec fn ln1(rt: Seq<u32>, rh: Seq<u32>, id: Seq<u32>, l: Seq<u32>, up: BitVector, ut: Seq<u32>, uh: Seq<u32>, k: int) -> bool {
    &&& forall|q: int| 0 <= q < k ==> m1(rt, rh, l, ut, uh, (#[trigger] id[q]) as int) && (rt[id[q] as int] < rh[id[q] as int] ==> up.get(id[q] as int))
    &&& forall|j: int| 0 <= j < rt.len() && #[trigger] up.get(j) ==> rt[j] < rh[j]
}
#[verifier::opaque]
pub open spec fn ln2(rt: Seq<u32>, rh: Seq<u32>, id: Seq<u32>, l: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>, k: int) -> bool {
    &&& forall|q: int| 0 <= q < k ==> m2(rt, rh, l, ut, uh, (#[trigger] id[q]) as int)
    &&& forall|j: int| 0 <= j < rt.len() ==> #[trigger] m1(rt, rh, l, ut, uh, j)
}
#[verifier::opaque]
pub open spec fn ups(rt: Seq<u32>, rh: Seq<u32>, up: BitVector) -> bool { forall|j: int| 0 <= j < rt.len() ==> #[trigger] up.get(j) == (rt[j] < rh[j]) }
#[verifier::opaque]
pub open spec fn linked(rt: Seq<u32>, rh: Seq<u32>, l: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>) -> bool {
    rt.len() == rh.len() == l.len() && forall|j: int| 0 <= j < rt.len() ==> #[trigger] m1(rt, rh, l, ut, uh, j) && m2(rt, rh, l, ut, uh, j)
}
#[verifier::opaque]
pub open spec fn reach(it: Seq<u32>, ih: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>, c: int, k: int) -> bool {
    c == 0 || exists|q: int| 0 <= q < k && it[q] < ih[q] && #[trigger] lst(ut, uh, c, it[q] as int, ih[q] as int)
}
pub proof fn lemma_tgt(rt: Seq<u32>, rh: Seq<u32>, it: Seq<u32>, ih: Seq<u32>, id: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>, n: int, c: int, k: int) -> (t: int)
    requires inp(rt, rh, it, ih, id), cov1(rt, rh, ut, uh), up_list(ut, uh, n), reach(it, ih, ut, uh, c, k), 0 <= k < it.len(), it[k] < ih[k],
    ensures lst(ut, uh, t, it[k] as int, ih[k] as int), c <= t
{
    reveal(inp); reveal(cov1); reveal(reach);
    let j = id[k] as int;
    assert(it[k] == rt[id[k] as int]);
    assert(rt[j] < rh[j]);
    let t = choose|a: int| lst(ut, uh, a, rt[j] as int, rh[j] as int);
    if c > t {
        let q = choose|q: int| 0 <= q < k && it[q] < ih[q] && #[trigger] lst(ut, uh, c, it[q] as int, ih[q] as int);
        assert(lexi_le(it, ih, q, k));
        assert(lex_lt(ut, uh, t, c));
    }
    t
}
pub proof fn lemma_reach(it: Seq<u32>, ih: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>, c: int, k: int)
    requires (it[k] < ih[k] && lst(ut, uh, c, it[k] as int, ih[k] as int)) || reach(it, ih, ut, uh, c, k), k >= 0,
    ensures reach(it, ih, ut, uh, c, k + 1)
{ reveal(reach); }
pub proof fn lemma_reach0(it: Seq<u32>, ih: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>) ensures reach(it, ih, ut, uh, 0, 0) { reveal(reach); }
pub proof fn lemma_ln1_0(rt: Seq<u32>, rh: Seq<u32>, id: Seq<u32>, l: Seq<u32>, up: BitVector, ut: Seq<u32>, uh: Seq<u32>)
    requires forall|j: int| 0 <= j < rt.len() ==> !#[trigger] up.get(j),
    ensures ln1(rt, rh, id, l, up, ut, uh, 0)
{ reveal(ln1); }
pub proof fn lemma_ln1(rt: Seq<u32>, rh: Seq<u32>, it: Seq<u32>, ih: Seq<u32>, id: Seq<u32>, l: Seq<u32>, up: BitVector, l2: Seq<u32>, up2: BitVector, ut: Seq<u32>, uh: Seq<u32>, k: int)
    requires inp(rt, rh, it, ih, id), ln1(rt, rh, id, l, up, ut, uh, k), 0 <= k < it.len(), l.len() == rt.len(), l2.len() == l.len(),
        forall|j: int| 0 <= j < l.len() && j != id[k] ==> #[trigger] l2[j] == l[j],
        it[k] < ih[k] ==> lst(ut, uh, l2[id[k] as int] as int, it[k] as int, ih[k] as int), it[k] == ih[k] ==> l2[id[k] as int] == 0xFFFF_FFFFu32,
        forall|j: int| 0 <= j < rt.len() ==> #[trigger] up2.get(j) == (up.get(j) || (j == id[k] && it[k] < ih[k])),
    ensures ln1(rt, rh, id, l2, up2, ut, uh, k + 1)
{
    reveal(inp); reveal(ln1);
    assert(it[k] == rt[id[k] as int]);
    assert forall|q: int| 0 <= q < k + 1 implies m1(rt, rh, l2, ut, uh, (#[trigger] id[q]) as int) && (rt[id[q] as int] < rh[id[q] as int] ==> up2.get(id[q] as int)) by {
        assert(id[q] < id.len());
        if q < k { assert(id[q] != id[k]); assert(l2[id[q] as int] == l[id[q] as int]); assert(m1(rt, rh, l, ut, uh, id[q] as int)); }
    }
}
pub proof fn lemma_ln1_done(rt: Seq<u32>, rh: Seq<u32>, it: Seq<u32>, ih: Seq<u32>, id: Seq<u32>, l: Seq<u32>, up: BitVector, ut: Seq<u32>, uh: Seq<u32>, id2: Seq<u32>)
    requires inp(rt, rh, it, ih, id), ln1(rt, rh, id, l, up, ut, uh, it.len() as int),
    ensures ups(rt, rh, up), ln2(rt, rh, id2, l, ut, uh, 0)
{
    reveal(inp); reveal(ln1); reveal(ln2); reveal(ups);
    assert forall|j: int| 0 <= j < rt.len() implies #[trigger] m1(rt, rh, l, ut, uh, j) by {
        lemma_perm_surj(id, j); let q = choose|q: int| 0 <= q < id.len() && id[q] == j; assert(m1(rt, rh, l, ut, uh, id[q] as int));
    }
    assert forall|j: int| 0 <= j < rt.len() implies #[trigger] up.get(j) == (rt[j] < rh[j]) by {
        lemma_perm_surj(id, j); let q = choose|q: int| 0 <= q < id.len() && id[q] == j; assert(m1(rt, rh, l, ut, uh, id[q] as int));
    }
}
pub proof fn lemma_ln2(rt: Seq<u32>, rh: Seq<u32>, it: Seq<u32>, ih: Seq<u32>, id: Seq<u32>, l: Seq<u32>, l2: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>, k: int)
    requires inp(rh, rt, it, ih, id), ln2(rt, rh, id, l, ut, uh, k), 0 <= k < it.len(), l.len() == rt.len(), l2.len() == l.len(),
        forall|j: int| 0 <= j < l.len() && j != id[k] ==> #[trigger] l2[j] == l[j],
        it[k] < ih[k] ==> lst(ut, uh, l2[id[k] as int] as int, it[k] as int, ih[k] as int), it[k] >= ih[k] ==> l2[id[k] as int] == l[id[k] as int],
    ensures ln2(rt, rh, id, l2, ut, uh, k + 1)
{
    reveal(inp); reveal(ln2);
    assert(it[k] == rh[id[k] as int]);
    assert forall|q: int| 0 <= q < k + 1 implies m2(rt, rh, l2, ut, uh, (#[trigger] id[q]) as int) by {
        assert(id[q] < id.len());
        if q < k { assert(id[q] != id[k]); assert(l2[id[q] as int] == l[id[q] as int]); assert(m2(rt, rh, l, ut, uh, id[q] as int)); }
    }
    assert forall|j: int| 0 <= j < rt.len() implies m1(rt, rh, l2, ut, uh, j) by { assert(m1(rt, rh, l, ut, uh, j)); if j != id[k] { assert(l2[j] == l[j]); } }
}
pub proof fn lemma_ln2_done(rt: Seq<u32>, rh: Seq<u32>, it: Seq<u32>, ih: Seq<u32>, id: Seq<u32>, l: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>)
    requires inp(rh, rt, it, ih, id), ln2(rt, rh, id, l, ut, uh, it.len() as int), l.len() == rt.len(),
    ensures linked(rt, rh, l, ut, uh)
{
    reveal(inp); reveal(ln2); reveal(linked);
    assert forall|j: int| 0 <= j < rt.len() implies m1(rt, rh, l, ut, uh, j) && m2(rt, rh, l, ut, uh, j) by {
        lemma_perm_surj(id, j); let q = choose|q: int| 0 <= q < id.len() && id[q] == j; assert(m2(rt, rh, l, ut, uh, id[q] as int));
    }
}
pub proof fn lemma_inp_len(rt: Seq<u32>, rh: Seq<u32>, it: Seq<u32>, ih: Seq<u32>, id: Seq<u32>)
    requires inp(rt, rh, it, ih, id),
    ensures rt.len() == rh.len() == it.len() == ih.len() == id.len(), forall|k: int| 0 <= k < id.len() ==> (#[trigger] id[k]) < id.len()
{ reveal(inp); }
// swapping tail and head and ordering again
pub proof fn lemma_inp_swap(rt: Seq<u32>, rh: Seq<u32>, it: Seq<u32>, ih: Seq<u32>, id: Seq<u32>, p: Seq<u32>, it2: Seq<u32>, ih2: Seq<u32>, id2: Seq<u32>)
    requires inp(rt, rh, it, ih, id), exists|s: Seq<u32>| #[trigger] is_inv(s, p) && lexi_perm(ih, it, s), p.len() == it.len(), it2.len() == it.len(), ih2.len() == it.len(), id2.len() == it.len(),
        forall|k: int| 0 <= k < p.len() ==> it2[(#[trigger] p[k]) as int] == ih[k],
        forall|k: int| 0 <= k < p.len() ==> ih2[(#[trigger] p[k]) as int] == it[k],
        forall|k: int| 0 <= k < p.len() ==> id2[(#[trigger] p[k]) as int] == id[k],
    ensures inp(rh, rt, it2, ih2, id2)
{
    reveal(inp);
    let s = choose|s: Seq<u32>| #[trigger] is_inv(s, p) && lexi_perm(ih, it, s);
    assert forall|i: int| 0 <= i < it.len() implies s[i] < it.len() && #[trigger] it2[i] == ih[s[i] as int] && ih2[i] == it[s[i] as int] && id2[i] == id[s[i] as int] by { assert(p[s[i] as int] == i); }
    assert forall|i: int| 0 <= i < id2.len() implies (#[trigger] id2[i]) < id2.len() by { assert(it2[i] == ih[s[i] as int]); assert(id[s[i] as int] < id.len()); }
    assert forall|i: int, j: int| 0 <= i < id2.len() && 0 <= j < id2.len() && i != j implies #[trigger] id2[i] != #[trigger] id2[j] by { assert(it2[i] == ih[s[i] as int] && it2[j] == ih[s[j] as int]); assert(s[i] != s[j]); assert(id[s[i] as int] != id[s[j] as int]); }
    assert forall|k: int| 0 <= k < it2.len() implies #[trigger] it2[k] == rh[id2[k] as int] && ih2[k] == rt[id2[k] as int] by { assert(it[s[k] as int] == rt[id[s[k] as int] as int]); }
    assert forall|i: int, j: int| 0 <= i < j < it2.len() implies #[trigger] lexi_le(it2, ih2, i, j) by { assert(it2[i] == ih[s[i] as int] && it2[j] == ih[s[j] as int]); assert(lexi_le(ih, it, s[i] as int, s[j] as int)); }
}
pub proof fn lemma_no_arcs(rt: Seq<u32>, rh: Seq<u32>, l: Seq<u32>, up: BitVector, ut: Seq<u32>, uh: Seq<u32>)
    requires cov(rt, rh, ut, uh), ut.len() == 0, l.len() == rt.len(), forall|j: int| 0 <= j < l.len() ==> #[trigger] l[j] == 0xFFFF_FFFFu32, forall|j: int| 0 <= j < rt.len() ==> !#[trigger] up.get(j),
    ensures linked(rt, rh, l, ut, uh), ups(rt, rh, up)
{
    reveal(cov1); reveal(linked); reveal(ups);
    assert forall|j: int| 0 <= j < rt.len() implies rt[j] == rh[j] by {
        if rt[j] < rh[j] { let a = choose|a: int| lst(ut, uh, a, rt[j] as int, rh[j] as int); assert(lst(ut, uh, a, rt[j] as int, rh[j] as int)); }
        if rh[j] < rt[j] { let a = choose|a: int| lst(ut, uh, a, rh[j] as int, rt[j] as int); assert(lst(ut, uh, a, rh[j] as int, rt[j] as int)); }
    }
}

// the parts of the object filled in later
pub open spec fn fresh(c: CustomizableContractionHierarchy) -> bool {
    &&& c.does_cch_arc_have_input_arc.wf() && c.does_cch_arc_have_extra_input_arc.wf()
    &&& c.first_extra_forward_input_arc_of_cch@.len() == 0 && c.first_extra_backward_input_arc_of_cch@.len() == 0 && c.extra_forward_input_arc_of_cch@.len() == 0 && c.extra_backward_input_arc_of_cch@.len() == 0
}

// ---- construction: elimination tree
pub open spec fn par_of(ufo: Seq<u32>, uh: Seq<u32>, x: int) -> u32 { if ufo[x] != ufo[x + 1] { uh[ufo[x] as int] } else { 0xFFFF_FFFFu32 } }
#[verifier::opaque]
pub open spec fn pars(ufo: Seq<u32>, uh: Seq<u32>, par: Seq<u32>, k: int) -> bool { forall|x: int| 0 <= x < k ==> #[trigger] par[x] == par_of(ufo, uh, x) }
#[verifier::opaque]
pub open spec fn treed(par: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>) -> bool { forall|a: int| 0 <= a < ut.len() ==> anc(par, #[trigger] ut[a] as int, uh[a] as int) }
pub proof fn lemma_pars(ufo: Seq<u32>, uh: Seq<u32>, par: Seq<u32>, par2: Seq<u32>, k: int)
    requires pars(ufo, uh, par, k), 0 <= k < par.len(), par2 == par.update(k, par_of(ufo, uh, k)),
    ensures pars(ufo, uh, par2, k + 1)
{ reveal(pars); }
pub proof fn lemma_pars0(ufo: Seq<u32>, uh: Seq<u32>, par: Seq<u32>) ensures pars(ufo, uh, par, 0) { reveal(pars); }
pub proof fn lemma_ix(ut: Seq<u32>, ufo: Seq<u32>, n: int, x: int)
    requires is_index(ut, ufo, n), 0 <= x < n
    ensures ufo[x] <= ufo[x + 1] <= ut.len(), ufo[0] == 0, ufo[n] == ut.len(), ufo.len() == n + 1, forall|a: int| 0 <= a < ut.len() ==> (ufo[x] <= a < ufo[x + 1]) == (#[trigger] ut[a] == x)
{ assert(ufo[x] <= ufo[x + 1]); assert(ufo[x + 1] <= ufo[n]); assert forall|a: int| 0 <= a < ut.len() implies (ufo[x] <= a < ufo[x + 1]) == (#[trigger] ut[a] == x) by { assert(blk(ufo, x, a) == (ut[a] == x)); } }
pub proof fn lemma_tree_arc(ut: Seq<u32>, uh: Seq<u32>, ufo: Seq<u32>, par: Seq<u32>, n: int, a: int)
    requires up_list(ut, uh, n), chordal_list(ut, uh), is_index(ut, ufo, n), par.len() == n, pars(ufo, uh, par, n), 0 <= a < ut.len(),
    ensures anc(par, ut[a] as int, uh[a] as int)
    decreases n - ut[a]
{
    reveal(chordal_list); reveal(pars);
    let x = ut[a] as int;
    assert(ut[a] < uh[a] < n);
    lemma_ix(ut, ufo, n, x);
    let f = ufo[x] as int;
    assert(ut[f] == x);
    assert(ut[f] < uh[f] < n);
    assert(par[x] == uh[f]);
    assert(anc(par, uh[f] as int, uh[f] as int));
    if f != a {
        assert(f < a);
        assert(lst_ex(ut, uh, uh[f] as int, uh[a] as int));
        let t = choose|t: int| lst(ut, uh, t, uh[f] as int, uh[a] as int);
        lemma_tree_arc(ut, uh, ufo, par, n, t);
    }
}
pub proof fn lemma_tree(ut: Seq<u32>, uh: Seq<u32>, ufo: Seq<u32>, par: Seq<u32>, n: int)
    requires up_list(ut, uh, n), chordal_list(ut, uh), is_index(ut, ufo, n), par.len() == n, pars(ufo, uh, par, n), n < 0x4000_0000,
    ensures tree_ok(par), treed(par, ut, uh)
{
    reveal(treed);
    assert forall|a: int| 0 <= a < ut.len() implies anc(par, #[trigger] ut[a] as int, uh[a] as int) by { lemma_tree_arc(ut, uh, ufo, par, n, a); }
    reveal(pars);
    assert forall|x: int| 0 <= x < par.len() implies (#[trigger] par[x]) == INV() || x < par[x] < par.len() by {
        lemma_ix(ut, ufo, n, x);
        if ufo[x] != ufo[x + 1] { let f = ufo[x] as int; assert(ut[f] == x); assert(ut[f] < uh[f] < n); }
    }
}
// ---- construction: arcs that can get a weight less than infinity
pub open spec fn tri0(ut: Seq<u32>, uh: Seq<u32>, b: int, m: int, t: int) -> bool {
    0 <= b < ut.len() && 0 <= m < ut.len() && 0 <= t < ut.len() && ut[b] == ut[m] && uh[b] == ut[t] && uh[m] == uh[t]
}
pub open spec fn bits_of(v: BitVector) -> Seq<bool> { Seq::new(v.n() as nat, |i: int| v.get(i)) }
pub open spec fn cl(gf: Seq<bool>, gb: Seq<bool>, b: int, m: int, t: int) -> bool { (gb[b] && gf[m] ==> gf[t]) && (gf[b] && gb[m] ==> gb[t]) }
#[verifier::opaque]
pub open spec fn clo(ut: Seq<u32>, uh: Seq<u32>, gf: Seq<bool>, gb: Seq<bool>, a: int) -> bool {
    gf.len() == ut.len() && gb.len() == ut.len() && forall|b: int, m: int, t: int| #[trigger] tri0(ut, uh, b, m, t) && b < a ==> cl(gf, gb, b, m, t)
}
#[verifier::opaque]
pub open spec fn mst(ut: Seq<u32>, uh: Seq<u32>, gf: Seq<bool>, gb: Seq<bool>, a: int, xa: int, ya: int) -> bool {
    forall|m: int, t: int| #[trigger] tri0(ut, uh, a, m, t) && (m < xa || t < ya) ==> cl(gf, gb, a, m, t)
}
#[verifier::opaque]
pub open spec fn seeds(l: Seq<u32>, up: BitVector, gf: Seq<bool>, gb: Seq<bool>, k: int) -> bool {
    forall|j: int| 0 <= j < k && #[trigger] l[j] != 0xFFFF_FFFFu32 ==> if up.get(j) { gf[l[j] as int] } else { gb[l[j] as int] }
}
pub open spec fn more(g: Seq<bool>, h: Seq<bool>) -> bool { g.len() == h.len() && forall|i: int| 0 <= i < g.len() && g[i] ==> #[trigger] h[i] }
pub open spec fn llen(l: Seq<u32>, m: int) -> bool { forall|j: int| 0 <= j < l.len() ==> #[trigger] l[j] == 0xFFFF_FFFFu32 || l[j] < m }
pub proof fn lemma_llen(rt: Seq<u32>, rh: Seq<u32>, l: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>)
    requires linked(rt, rh, l, ut, uh)
    ensures llen(l, ut.len() as int), l.len() == rt.len(), rt.len() == rh.len()
{ reveal(linked); assert forall|j: int| 0 <= j < l.len() implies #[trigger] l[j] == 0xFFFF_FFFFu32 || l[j] < ut.len() by { assert(m1(rt, rh, l, ut, uh, j)); } }
pub proof fn lemma_seed0(l: Seq<u32>, up: BitVector, gf: Seq<bool>, gb: Seq<bool>) ensures seeds(l, up, gf, gb, 0) { reveal(seeds); }
pub proof fn lemma_seed(l: Seq<u32>, up: BitVector, gf: Seq<bool>, gb: Seq<bool>, hf: Seq<bool>, hb: Seq<bool>, k: int)
    requires seeds(l, up, gf, gb, k), 0 <= k < l.len(), more(gf, hf), more(gb, hb), gf.len() == gb.len(), llen(l, gf.len() as int), l[k] != 0xFFFF_FFFFu32 ==> if up.get(k) { hf[l[k] as int] } else { hb[l[k] as int] },
    ensures seeds(l, up, hf, hb, k + 1)
{ reveal(seeds); assert forall|j: int| 0 <= j < k + 1 && #[trigger] l[j] != 0xFFFF_FFFFu32 implies if up.get(j) { hf[l[j] as int] } else { hb[l[j] as int] } by { if j < k { assert(gf[l[j] as int] ==> hf[l[j] as int]); assert(gb[l[j] as int] ==> hb[l[j] as int]); } } }
pub proof fn lemma_seed_more(l: Seq<u32>, up: BitVector, gf: Seq<bool>, gb: Seq<bool>, hf: Seq<bool>, hb: Seq<bool>)
    requires seeds(l, up, gf, gb, l.len() as int), more(gf, hf), more(gb, hb), gf.len() == gb.len(), llen(l, gf.len() as int),
    ensures seeds(l, up, hf, hb, l.len() as int)
{ reveal(seeds); assert forall|j: int| 0 <= j < l.len() && #[trigger] l[j] != 0xFFFF_FFFFu32 implies if up.get(j) { hf[l[j] as int] } else { hb[l[j] as int] } by { assert(gf[l[j] as int] ==> hf[l[j] as int]); assert(gb[l[j] as int] ==> hb[l[j] as int]); } }
pub proof fn lemma_clo0(ut: Seq<u32>, uh: Seq<u32>, gf: Seq<bool>, gb: Seq<bool>) requires gf.len() == ut.len(), gb.len() == ut.len() ensures clo(ut, uh, gf, gb, 0) { reveal(clo); }
pub proof fn lemma_tri0(ut: Seq<u32>, uh: Seq<u32>, ufo: Seq<u32>, n: int, a: int, m: int, t: int)
    requires up_list(ut, uh, n), is_index(ut, ufo, n), tri0(ut, uh, a, m, t),
    ensures a < m < ufo[ut[a] as int + 1], ufo[uh[a] as int] <= t < ufo[uh[a] as int + 1]
{
    assert(ut[t] < uh[t]);
    if m <= a { if m < a { assert(lex_lt(ut, uh, m, a)); } }
    assert(ut[a] < uh[a] < n);
    lemma_ix(ut, ufo, n, ut[a] as int); lemma_ix(ut, ufo, n, uh[a] as int);
    assert(ut[m] == ut[a]); assert(ut[t] == uh[a]);
}
pub proof fn lemma_mst0(ut: Seq<u32>, uh: Seq<u32>, ufo: Seq<u32>, gf: Seq<bool>, gb: Seq<bool>, n: int, a: int)
    requires up_list(ut, uh, n), is_index(ut, ufo, n), 0 <= a < ut.len(),
    ensures mst(ut, uh, gf, gb, a, a + 1, ufo[uh[a] as int] as int), ut[a] < uh[a] < n, a + 1 <= ufo[ut[a] as int + 1] <= ut.len(), ufo[uh[a] as int] <= ufo[uh[a] as int + 1] <= ut.len(), ufo.len() == n + 1,
        forall|q: int| a <= q < ufo[ut[a] as int + 1] ==> #[trigger] ut[q] == ut[a], forall|q: int| ufo[uh[a] as int] <= q < ufo[uh[a] as int + 1] ==> #[trigger] ut[q] == uh[a],
{
    reveal(mst);
    assert forall|m: int, t: int| #[trigger] tri0(ut, uh, a, m, t) && (m < a + 1 || t < ufo[uh[a] as int]) implies cl(gf, gb, a, m, t) by { lemma_tri0(ut, uh, ufo, n, a, m, t); }
    assert(ut[a] < uh[a] < n);
    lemma_ix(ut, ufo, n, ut[a] as int); lemma_ix(ut, ufo, n, uh[a] as int);
}
pub open spec fn upd(g: Seq<bool>, h: Seq<bool>, k: int, v: bool) -> bool { g.len() == h.len() && forall|i: int| 0 <= i < g.len() ==> #[trigger] h[i] == (g[i] || (i == k && v)) }
pub proof fn lemma_mst(ut: Seq<u32>, uh: Seq<u32>, ufo: Seq<u32>, n: int, a: int, xa: int, ya: int, gf: Seq<bool>, gb: Seq<bool>, hf: Seq<bool>, hb: Seq<bool>, xb: int, yb: int)
    requires up_list(ut, uh, n), is_index(ut, ufo, n), 0 <= a < ut.len(), clo(ut, uh, gf, gb, a), mst(ut, uh, gf, gb, a, xa, ya), a < xa < ufo[ut[a] as int + 1], ufo[uh[a] as int] <= ya < ufo[uh[a] as int + 1],
        ut[xa] == ut[a], ut[ya] == uh[a], xa < ut.len(), ya < ut.len(),
        xb == (if uh[xa] <= uh[ya] { xa + 1 } else { xa }), yb == (if uh[ya] <= uh[xa] { ya + 1 } else { ya }),
        upd(gf, hf, ya, uh[xa] == uh[ya] && gb[a] && gf[xa]), upd(gb, hb, ya, uh[xa] == uh[ya] && gf[a] && gb[xa]),
    ensures clo(ut, uh, hf, hb, a), mst(ut, uh, hf, hb, a, xb, yb)
{
    reveal(clo); reveal(mst);
    assert(ut[a] < uh[a]);
    assert(ut[ya] > ut[a]);
    assert forall|b: int, m: int, t: int| #[trigger] tri0(ut, uh, b, m, t) && b <= a && cl(gf, gb, b, m, t) implies cl(hf, hb, b, m, t) by {
        if b < a { assert(lex_lt(ut, uh, b, a)); }
        assert(ut[b] <= ut[a] && ut[m] <= ut[a]);
        assert(b != ya && m != ya);
        assert(hf[b] == gf[b] && hb[b] == gb[b] && hf[m] == gf[m] && hb[m] == gb[m]);
        assert(gf[t] ==> hf[t]); assert(gb[t] ==> hb[t]);
    }
    assert forall|m: int, t: int| #[trigger] tri0(ut, uh, a, m, t) && (m < xb || t < yb) implies cl(hf, hb, a, m, t) by {
        lemma_tri0(ut, uh, ufo, n, a, m, t);
        if m < xa || t < ya { assert(cl(gf, gb, a, m, t)); }
        else if m == xa {
            // uh[t] == uh[xa] <= uh[ya]
            if t > ya { assert(lex_lt(ut, uh, ya, t)); assert(uh[ya] < uh[t]); assert(uh[xa] < uh[ya] || uh[ya] < uh[xa]); assert(false); }
            assert(t == ya);
            assert(hf[a] == gf[a] && hb[a] == gb[a] && hf[m] == gf[m] && hb[m] == gb[m]);
            assert(hf[t] == (gf[t] || (uh[xa] == uh[ya] && gb[a] && gf[xa])));
            assert(hb[t] == (gb[t] || (uh[xa] == uh[ya] && gf[a] && gb[xa])));
        } else {
            assert(t == ya && m > xa);
            assert(lex_lt(ut, uh, xa, m)); assert(uh[xa] < uh[m]); assert(uh[m] == uh[ya]);
            assert(false);
        }
    }
}
pub proof fn lemma_clo(ut: Seq<u32>, uh: Seq<u32>, ufo: Seq<u32>, n: int, gf: Seq<bool>, gb: Seq<bool>, a: int, xa: int, ya: int)
    requires up_list(ut, uh, n), is_index(ut, ufo, n), 0 <= a < ut.len(), clo(ut, uh, gf, gb, a), mst(ut, uh, gf, gb, a, xa, ya), xa == ufo[ut[a] as int + 1] || ya == ufo[uh[a] as int + 1],
    ensures clo(ut, uh, gf, gb, a + 1)
{
    reveal(clo); reveal(mst);
    assert forall|b: int, m: int, t: int| #[trigger] tri0(ut, uh, b, m, t) && b < a + 1 implies cl(gf, gb, b, m, t) by { if b == a { lemma_tri0(ut, uh, ufo, n, a, m, t); } }
}
// ---- construction: arcs kept
pub open spec fn iinc(ix: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < ix.len() ==> #[trigger] ix[i] < #[trigger] ix[j] }
#[verifier::opaque]
pub open spec fn pruned(ut0: Seq<u32>, uh0: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>, ix: Seq<int>, gf: Seq<bool>, gb: Seq<bool>) -> bool {
    &&& ix.len() == ut.len() && ix.len() == uh.len() && gf.len() == ut0.len() && gb.len() == ut0.len() && uh0.len() == ut0.len()
    &&& iinc(ix)
    &&& forall|i: int| 0 <= i < ix.len() ==> 0 <= (#[trigger] ix[i]) < ut0.len() && ut[i] == ut0[ix[i]] && uh[i] == uh0[ix[i]]
    &&& forall|t: int| 0 <= t < ut0.len() && (#[trigger] gf[t] || gb[t]) ==> exists|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == t
    &&& clo(ut0, uh0, gf, gb, ut0.len() as int)
}
#[verifier::opaque]
pub open spec fn pseeds(l: Seq<u32>, up: BitVector, ix: Seq<int>, gf: Seq<bool>, gb: Seq<bool>) -> bool {
    llen(l, ix.len() as int) && forall|j: int| 0 <= j < l.len() && #[trigger] l[j] != 0xFFFF_FFFFu32 ==> if up.get(j) { gf[ix[l[j] as int]] } else { gb[ix[l[j] as int]] }
}
pub open spec fn idx_id(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| i) }
pub open spec fn all_true(n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| true) }
pub proof fn lemma_unpruned(ut: Seq<u32>, uh: Seq<u32>, l: Seq<u32>, up: BitVector)
    requires ut.len() == uh.len(), llen(l, ut.len() as int),
    ensures ({ let n = ut.len() as int; pruned(ut, uh, ut, uh, idx_id(n), all_true(n), all_true(n)) && pseeds(l, up, idx_id(n), all_true(n), all_true(n)) })
{ reveal(pruned); reveal(pseeds); reveal(clo); let n = ut.len() as int; let ix = idx_id(n);
  assert forall|t: int| 0 <= t < ut.len() && (#[trigger] all_true(n)[t] || all_true(n)[t]) implies exists|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == t by { assert(ix[t] == t); } }
pub proof fn lemma_pruned_up(ut0: Seq<u32>, uh0: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>, f: &BitVector, n: int, par: Seq<u32>)
    requires up_list(ut0, uh0, n), ut == kept(f, ut0, ut0.len() as int, true), uh == kept(f, uh0, uh0.len() as int, true), treed(par, ut0, uh0),
    ensures up_list(ut, uh, n), treed(par, ut, uh), ut.len() == kix(f, ut0.len() as int).len(), sorted(ut), below(ut, n), ut.len() <= ut0.len(), ut.len() == count(f.data_@, ut0.len() as int),
{
    reveal(treed);
    let l = ut0.len() as int; let ix = kix(f, l);
    lemma_kix(f, l); lemma_kept_ix(f, ut0, l); lemma_kept_ix(f, uh0, l);
    assert forall|a: int| 0 <= a < ut.len() implies (#[trigger] ut[a]) < uh[a] < n && anc(par, ut[a] as int, uh[a] as int) by { assert(ut[a] == ut0[ix[a]]); assert(uh[a] == uh0[ix[a]]); assert(ut0[ix[a]] < uh0[ix[a]]); }
    assert forall|a: int, b: int| 0 <= a < b < ut.len() implies #[trigger] lex_lt(ut, uh, a, b) by {
        assert(ut[a] == ut0[ix[a]] && ut[b] == ut0[ix[b]] && uh[a] == uh0[ix[a]] && uh[b] == uh0[ix[b]]); assert(ix[a] < ix[b]); assert(lex_lt(ut0, uh0, ix[a], ix[b])); }
    lemma_up_sorted(ut, uh, n);
}
pub open spec fn relink(bits: Seq<u64>, x: u32) -> u32 { if x == 0xFFFF_FFFFu32 { x } else { count(bits, x as int) as u32 } }
pub proof fn lemma_keepbit(l: Seq<u32>, up: BitVector, f: BitVector, gf: Seq<bool>, gb: Seq<bool>)
    requires seeds(l, up, gf, gb, l.len() as int), llen(l, gf.len() as int), f.n() == gf.len(), gb.len() == gf.len(), forall|k: int| 0 <= k < gf.len() ==> #[trigger] f.get(k) == (gf[k] || gb[k]), f.n() <= 0xFFFF_FFFF,
    ensures forall|j: int| 0 <= j < l.len() && #[trigger] l[j] != 0xFFFF_FFFFu32 ==> vbit(f.data_@, l[j] as int) && l[j] < f.n() && 0 <= count(f.data_@, l[j] as int) <= l[j]
{
    reveal(seeds);
    assert forall|j: int| 0 <= j < l.len() && #[trigger] l[j] != 0xFFFF_FFFFu32 implies vbit(f.data_@, l[j] as int) && l[j] < f.n() && 0 <= count(f.data_@, l[j] as int) <= l[j] by { assert(f.get(l[j] as int)); lemma_kix(&f, l[j] as int); }
}
pub proof fn lemma_pruned(rt: Seq<u32>, rh: Seq<u32>, ut0: Seq<u32>, uh0: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>, l0: Seq<u32>, l: Seq<u32>, up: BitVector, f: BitVector, gf: Seq<bool>, gb: Seq<bool>)
    requires linked(rt, rh, l0, ut0, uh0), seeds(l0, up, gf, gb, l0.len() as int), f.n() == ut0.len(), ut0.len() == uh0.len(), gf.len() == ut0.len(), gb.len() == ut0.len(), f.n() <= 0xFFFF_FFFF, clo(ut0, uh0, gf, gb, ut0.len() as int),
        forall|k: int| 0 <= k < gf.len() ==> #[trigger] f.get(k) == (gf[k] || gb[k]),
        ut == kept(&f, ut0, ut0.len() as int, true), uh == kept(&f, uh0, uh0.len() as int, true), l.len() == l0.len(),
        forall|j: int| 0 <= j < l.len() ==> #[trigger] l[j] == relink(f.data_@, l0[j]),
    ensures linked(rt, rh, l, ut, uh), pruned(ut0, uh0, ut, uh, kix(&f, ut0.len() as int), gf, gb), pseeds(l, up, kix(&f, ut0.len() as int), gf, gb)
{
    reveal(linked); reveal(pruned); reveal(pseeds); reveal(seeds);
    let n = ut0.len() as int; let ix = kix(&f, n);
    lemma_llen(rt, rh, l0, ut0, uh0);
    lemma_kix(&f, n); lemma_kept_ix(&f, ut0, n); lemma_kept_ix(&f, uh0, n);
    lemma_keepbit(l0, up, f, gf, gb);
    assert forall|j: int| 0 <= j < l.len() && #[trigger] l0[j] != 0xFFFF_FFFFu32 implies 0 <= l[j] < ix.len() && l[j] != 0xFFFF_FFFFu32 && ix[l[j] as int] == l0[j] by {
        assert(vbit(f.data_@, l0[j] as int)); assert(f.get(l0[j] as int)); assert(l[j] == relink(f.data_@, l0[j]));
    }
    assert forall|j: int| 0 <= j < rt.len() implies #[trigger] m1(rt, rh, l, ut, uh, j) && m2(rt, rh, l, ut, uh, j) by {
        assert(m1(rt, rh, l0, ut0, uh0, j)); assert(l[j] == relink(f.data_@, l0[j]));
        if l0[j] != 0xFFFF_FFFFu32 { let q = l[j] as int; assert(kept(&f, ut0, n, true)[q] == ut0[ix[q]]); assert(kept(&f, uh0, n, true)[q] == uh0[ix[q]]); }
    }
    assert forall|i: int| 0 <= i < ix.len() implies 0 <= (#[trigger] ix[i]) < ut0.len() && ut[i] == ut0[ix[i]] && uh[i] == uh0[ix[i]] by {}
    assert forall|t: int| 0 <= t < ut0.len() && (#[trigger] gf[t] || gb[t]) implies exists|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == t by { assert(f.get(t)); assert(ix[count(f.data_@, t)] == t); }
    assert forall|j: int| 0 <= j < l.len() implies #[trigger] l[j] == 0xFFFF_FFFFu32 || l[j] < ix.len() by { assert(l[j] == relink(f.data_@, l0[j])); if l0[j] != 0xFFFF_FFFFu32 {} }
    assert forall|j: int| 0 <= j < l.len() && #[trigger] l[j] != 0xFFFF_FFFFu32 implies if up.get(j) { gf[ix[l[j] as int]] } else { gb[ix[l[j] as int]] } by { assert(l[j] == relink(f.data_@, l0[j])); assert(l0[j] != 0xFFFF_FFFFu32); }
}

pub open spec fn same(c: CustomizableContractionHierarchy, ord: Seq<u32>, rk: Seq<u32>, ut: Seq<u32>, uh: Seq<u32>, ufo: Seq<u32>, up: BitVector) -> bool {
    c.order@ == ord && c.rank@ == rk && c.up_tail@ == ut && c.up_head@ == uh && c.up_first_out@ == ufo && c.is_input_arc_upward == up && fresh(c)
}
// ---- construction: downward graph
pub open spec fn dwn(dfo: Seq<u32>, n: int, d: int, x: int) -> bool { 0 <= x < n && dfo[x] <= d < dfo[x + 1] }
pub open spec fn listed(dfo: Seq<u32>, d2u: Seq<u32>, n: int, x: int, a: int) -> bool { exists|d: int| #[trigger] dwn(dfo, n, d, x) && d2u[d] == a }
#[verifier::opaque]
pub open spec fn down_ok(ut: Seq<u32>, uh: Seq<u32>, dfo: Seq<u32>, dh: Seq<u32>, d2u: Seq<u32>, n: int) -> bool {
    &&& d2u.len() == ut.len() && dh.len() == ut.len() && dfo.len() == n + 1 && dfo[0] == 0 && dfo[n] == ut.len()
    &&& forall|i: int, j: int| 0 <= i <= j <= n ==> #[trigger] dfo[i] <= #[trigger] dfo[j]
    &&& forall|d: int, x: int| #[trigger] dwn(dfo, n, d, x) ==> d2u[d] < ut.len() && uh[d2u[d] as int] == x && ut[d2u[d] as int] == dh[d]
    &&& forall|d: int, e: int, x: int| #[trigger] dwn(dfo, n, d, x) && #[trigger] dwn(dfo, n, e, x) && d < e ==> dh[d] < dh[e]
    &&& forall|a: int| 0 <= a < ut.len() ==> #[trigger] listed(dfo, d2u, n, uh[a] as int, a)
}
pub proof fn lemma_down_sorted(ut: Seq<u32>, uh: Seq<u32>, dt: Seq<u32>, d2u: Seq<u32>, n: int)
    requires up_list(ut, uh, n), lexi_perm(uh, ut, d2u), dt.len() == ut.len(), forall|k: int| 0 <= k < d2u.len() ==> #[trigger] dt[k] == uh[d2u[k] as int],
    ensures sorted(dt), below(dt, n)
{
    lemma_up_sorted(ut, uh, n);
    assert forall|i: int, j: int| 0 <= i <= j < dt.len() implies #[trigger] dt[i] <= #[trigger] dt[j] by { if i < j { assert(lexi_le(uh, ut, d2u[i] as int, d2u[j] as int)); } }
    assert forall|i: int| 0 <= i < dt.len() implies #[trigger] dt[i] < n by { assert(d2u[i] < d2u.len()); assert(uh[d2u[i] as int] < n); }
}
pub proof fn lemma_down(ut: Seq<u32>, uh: Seq<u32>, dt: Seq<u32>, dfo: Seq<u32>, dh: Seq<u32>, d2u: Seq<u32>, n: int)
    requires up_list(ut, uh, n), lexi_perm(uh, ut, d2u), dt.len() == ut.len(), dh.len() == ut.len(), forall|k: int| 0 <= k < d2u.len() ==> #[trigger] dt[k] == uh[d2u[k] as int],
        forall|k: int| 0 <= k < d2u.len() ==> #[trigger] dh[k] == ut[d2u[k] as int], is_index(dt, dfo, n),
    ensures down_ok(ut, uh, dfo, dh, d2u, n)
{
    reveal(down_ok);
    assert(d2u.len() == ut.len() && dfo.len() == n + 1); assert(dfo[0] == 0 && dfo[n] == ut.len());
    assert forall|i: int, j: int| 0 <= i <= j <= n implies #[trigger] dfo[i] <= #[trigger] dfo[j] by {}
    assert forall|d: int, x: int| #[trigger] dwn(dfo, n, d, x) implies 0 <= d < ut.len() && dt[d] == x && d2u[d] < ut.len() && uh[d2u[d] as int] == x && ut[d2u[d] as int] == dh[d] by {
        lemma_ix(dt, dfo, n, x); assert(d < dt.len()); assert(dt[d] == x); assert(dt[d] == uh[d2u[d] as int]); assert(dh[d] == ut[d2u[d] as int]); assert(d2u[d] < d2u.len());
    }
    assert forall|d: int, e: int, x: int| #[trigger] dwn(dfo, n, d, x) && #[trigger] dwn(dfo, n, e, x) && d < e implies dh[d] < dh[e] by {
        let p = d2u[d] as int; let q = d2u[e] as int;
        assert(d2u[d] != d2u[e]);
        assert(lexi_le(uh, ut, p, q)); assert(ut[p] <= ut[q]);
        if ut[p] == ut[q] { if p < q { assert(lex_lt(ut, uh, p, q)); } else { assert(lex_lt(ut, uh, q, p)); } }
    }
    assert forall|a: int| 0 <= a < ut.len() implies #[trigger] listed(dfo, d2u, n, uh[a] as int, a) by {
        lemma_perm_surj(d2u, a); let d = choose|d: int| 0 <= d < d2u.len() && d2u[d] == a;
        assert(ut[a] < uh[a] < n);
        assert(dt[d] == uh[a]); lemma_ix(dt, dfo, n, uh[a] as int); assert(dwn(dfo, n, d, uh[a] as int));
    }
}
