// the weight functor: an arbitrary function of the arc
pub uninterp spec fn fw(a: int) -> u32;
#[verifier::external_body]
pub fn get_weight(arc: u32, departure_time: u32) -> (r: u32) ensures r == fw(arc as int) { unimplemented!() }
pub open spec fn INF() -> int { 2147483647 }

pub struct G { pub fo: Seq<u32>, pub tail: Seq<u32>, pub head: Seq<u32> }
impl G {
    pub open spec fn n(&self) -> int { self.fo.len() - 1 }
    pub open spec fn m(&self) -> int { self.head.len() as int }
    // adjacency array graph
    pub open spec fn wf(&self) -> bool {
        &&& 1 <= self.fo.len() && self.n() < 0x4000_0000
        &&& self.fo[0] == 0 && self.fo[self.n()] == self.head.len() && self.head.len() == self.tail.len()
        &&& forall|i: int, j: int| 0 <= i <= j <= self.n() ==> #[trigger] self.fo[i] <= #[trigger] self.fo[j]
        &&& forall|a: int| 0 <= a < self.m() ==> (#[trigger] self.tail[a]) < self.n() && self.fo[self.tail[a] as int] <= a < self.fo[self.tail[a] + 1]
        &&& forall|a: int| 0 <= a < self.m() ==> (#[trigger] self.head[a]) < self.n()
    }
    // p is a sequence of arcs leading from s to t that avoids closed arcs
    pub open spec fn walk(&self, p: Seq<u32>, s: int, t: int) -> bool
        decreases p.len()
    {
        if p.len() == 0 { s == t } else {
            &&& p.last() < self.m() && fw(p.last() as int) < INF() && self.head[p.last() as int] == t
            &&& self.walk(p.drop_last(), s, self.tail[p.last() as int] as int)
        }
    }
}
pub open spec fn wlen(p: Seq<u32>) -> int
    decreases p.len()
{ if p.len() == 0 { 0 } else { wlen(p.drop_last()) + fw(p.last() as int) } }
// what has been asked so far: the sources with their departure times, and the settled nodes in order
pub struct Gh { pub src: Map<int, int>, pub rank: Map<int, int>, pub cnt: int, pub last: int }
pub open spec fn no_history() -> Gh { Gh { src: Map::empty(), rank: Map::empty(), cnt: 0, last: 0 } }
// v can be reached with arrival time d along path p from source s
pub open spec fn reach_by(g: G, src: Map<int, int>, v: int, d: int, s: int, p: Seq<u32>) -> bool {
    src.contains_key(s) && g.walk(p, s, v) && d == src[s] + wlen(p)
}
pub open spec fn reach(g: G, src: Map<int, int>, v: int, d: int) -> bool { exists|s: int, p: Seq<u32>| #[trigger] reach_by(g, src, v, d, s, p) }
pub open spec fn is_dist(g: G, src: Map<int, int>, v: int, d: int) -> bool {
    reach(g, src, v, d) && forall|e: int| #[trigger] reach(g, src, v, e) ==> d <= e
}
// no length that the search adds up reaches the infinity weight
pub open spec fn lengths_fit(g: G, src: Map<int, int>) -> bool {
    forall|a: int, d: int| 0 <= a < g.m() && fw(a) < INF() && #[trigger] is_dist(g, src, #[trigger] g.tail[a] as int, d) ==> d + fw(a) < INF()
}
impl Dijkstra {
    pub open spec fn g(&self) -> G { G { fo: self.first_out.val()@, tail: self.tail.val()@, head: self.head.val()@ } }
    pub open spec fn popped(&self, v: int) -> bool { self.was_popped.flag(v) }
    pub open spec fn d(&self, v: int) -> int { self.tentative_distance@[v] as int }
    pub open spec fn k(&self, v: int) -> int { self.queue.key(v) as int }
    pub open spec fn lab(&self, v: int) -> int { if self.popped(v) { self.d(v) } else { self.k(v) } }
    pub open spec fn sized(&self, n: int) -> bool {
        &&& self.tentative_distance@.len() == n && self.predecessor_arc@.len() == n
        &&& self.was_popped.wf() && self.was_popped.last_seen@.len() == n
        &&& self.queue.wf() && self.queue.n() == n
    }
    pub open spec fn shape(&self) -> bool {
        &&& !self.first_out.null() && !self.head.null() && !self.tail.null()
        &&& self.g().wf() && self.sized(self.g().n())
    }
    // v's label is witnessed by a source or by an arc from a settled node
    pub open spec fn witnessed(&self, h: Gh, v: int) -> bool {
        let q = self.predecessor_arc@[v];
        if q == 0xFFFF_FFFFu32 { h.src.contains_key(v) && self.lab(v) == h.src[v] }
        else {
            &&& q < self.g().m() && self.g().head[q as int] == v && fw(q as int) < INF()
            &&& self.popped(self.g().tail[q as int] as int)
            &&& self.lab(v) == self.d(self.g().tail[q as int] as int) + fw(q as int)
            &&& self.popped(v) ==> h.rank[self.g().tail[q as int] as int] < h.rank[v]
        }
    }
    pub open spec fn covered(&self, v: int, d: int) -> bool { (self.popped(v) && self.d(v) <= d) || (self.queue.has(v) && self.k(v) <= d) }
    // search invariant; arcs of x from a0 on are not relaxed yet
    pub open spec fn inv_but(&self, h: Gh, x: int, a0: int) -> bool {
        &&& self.shape()
        &&& h.cnt >= 0 && h.last >= 0
        &&& forall|v: int| 0 <= v < self.g().n() && #[trigger] self.popped(v) ==> !self.queue.has(v) && 0 <= h.rank[v] < h.cnt && self.d(v) <= h.last
        &&& forall|v: int| #[trigger] self.queue.has(v) ==> self.k(v) >= h.last
        &&& forall|v: int| 0 <= v < self.g().n() && (self.popped(v) || self.queue.has(v)) ==> #[trigger] self.witnessed(h, v)
        &&& forall|a: int| 0 <= a < self.g().m() && self.popped(#[trigger] self.g().tail[a] as int) && fw(a) < INF() && !(self.g().tail[a] == x && a >= a0)
                ==> self.covered(self.g().head[a] as int, self.d(self.g().tail[a] as int) + fw(a))
        &&& forall|s: int| #[trigger] h.src.contains_key(s) ==> 0 <= s < self.g().n() && h.src[s] >= 0 && self.covered(s, h.src[s])
    }
    pub open spec fn inv(&self, h: Gh) -> bool { self.inv_but(h, -1, 0) }
}
pub proof fn lemma_wlen_nonneg(p: Seq<u32>)
    ensures wlen(p) >= 0
    decreases p.len()
{ if p.len() > 0 { lemma_wlen_nonneg(p.drop_last()); } }
// every path is either covered by a settled label or at least as long as the least queued label
pub proof fn lemma_lower(t: &Dijkstra, h: Gh, s: int, p: Seq<u32>, v: int, kmin: int)
    requires t.inv(h), h.src.contains_key(s), t.g().walk(p, s, v), forall|u: int| #[trigger] t.queue.has(u) ==> kmin <= t.k(u),
    ensures (0 <= v < t.g().n() && t.popped(v) && t.d(v) <= h.src[s] + wlen(p)) || kmin <= h.src[s] + wlen(p)
    decreases p.len()
{
    if p.len() == 0 { assert(t.covered(s, h.src[s])); assert(wlen(p) == 0); }
    else {
        let a = p.last() as int; let q = p.drop_last();
        lemma_lower(t, h, s, q, t.g().tail[a] as int, kmin);
        lemma_wlen_nonneg(q);
        assert(wlen(p) == wlen(q) + fw(a));
        assert(t.g().head[a] == v);
        if !(kmin <= h.src[s] + wlen(q)) {
            assert(t.popped(t.g().tail[a] as int));
            assert(t.covered(t.g().head[a] as int, t.d(t.g().tail[a] as int) + fw(a)));
        }
    }
}
pub proof fn lemma_extend(g: G, src: Map<int, int>, a: int, d: int)
    requires g.wf(), 0 <= a < g.m(), fw(a) < INF(), reach(g, src, g.tail[a] as int, d),
    ensures reach(g, src, g.head[a] as int, d + fw(a))
{
    let (s, p) = choose|s: int, p: Seq<u32>| #[trigger] reach_by(g, src, g.tail[a] as int, d, s, p);
    let q = p.push(a as u32);
    assert(q.drop_last() =~= p); assert(q.last() == a);
    assert(a < 0x1_0000_0000) by { assert(g.fo[g.n()] == g.m()); }
    assert(reach_by(g, src, g.head[a] as int, d + fw(a), s, q));
}
// every label is the length of some path
pub proof fn lemma_upper(t: &Dijkstra, h: Gh, v: int)
    requires t.inv(h), 0 <= v < t.g().n(), t.popped(v) || t.queue.has(v),
    ensures reach(t.g(), h.src, v, t.lab(v))
    decreases (if t.popped(v) { h.rank[v] } else { h.cnt })
{
    assert(t.witnessed(h, v));
    let q = t.predecessor_arc@[v];
    if q == 0xFFFF_FFFFu32 {
        let p = Seq::<u32>::empty();
        assert(wlen(p) == 0);
        assert(reach_by(t.g(), h.src, v, t.lab(v), v, p));
    } else {
        let u = t.g().tail[q as int] as int;
        assert(t.popped(u));
        lemma_upper(t, h, u);
        lemma_extend(t.g(), h.src, q as int, t.d(u));
    }
}
pub proof fn lemma_popped_exact(t: &Dijkstra, h: Gh, v: int)
    requires t.inv(h), 0 <= v < t.g().n(), t.popped(v),
    ensures is_dist(t.g(), h.src, v, t.d(v))
{
    lemma_upper(t, h, v);
    assert forall|e: int| #[trigger] reach(t.g(), h.src, v, e) implies t.d(v) <= e by {
        let (s, p) = choose|s: int, p: Seq<u32>| #[trigger] reach_by(t.g(), h.src, v, e, s, p);
        lemma_lower(t, h, s, p, v, h.last);
    }
}
pub proof fn lemma_next_exact(t: &Dijkstra, h: Gh, v: int)
    requires t.inv(h), t.queue.has(v), forall|u: int| #[trigger] t.queue.has(u) ==> t.k(v) <= t.k(u),
    ensures is_dist(t.g(), h.src, v, t.k(v))
{
    assert(!t.popped(v));
    lemma_upper(t, h, v);
    assert forall|e: int| #[trigger] reach(t.g(), h.src, v, e) implies t.k(v) <= e by {
        let (s, p) = choose|s: int, p: Seq<u32>| #[trigger] reach_by(t.g(), h.src, v, e, s, p);
        lemma_lower(t, h, s, p, v, t.k(v));
    }
}
// when the queue is empty all reachable nodes are settled
pub proof fn lemma_complete(t: &Dijkstra, h: Gh, v: int, d: int)
    requires t.inv(h), forall|u: int| !#[trigger] t.queue.has(u), reach(t.g(), h.src, v, d),
    ensures 0 <= v < t.g().n() && t.popped(v)
{
    let (s, p) = choose|s: int, p: Seq<u32>| #[trigger] reach_by(t.g(), h.src, v, d, s, p);
    lemma_lower(t, h, s, p, v, d + 1);
}
pub proof fn lemma_prepend(g: G, a: u32, p: Seq<u32>, t: int)
    requires g.wf(), a < g.m(), fw(a as int) < INF(), g.walk(p, g.head[a as int] as int, t),
    ensures g.walk(seq![a] + p, g.tail[a as int] as int, t), wlen(seq![a] + p) == wlen(p) + fw(a as int)
    decreases p.len()
{
    let q = seq![a] + p;
    if p.len() == 0 {
        assert(q.drop_last() =~= Seq::<u32>::empty()); assert(q.last() == a);
        assert(wlen(q.drop_last()) == 0); assert(g.walk(q.drop_last(), g.tail[a as int] as int, g.tail[a as int] as int));
    } else {
        assert(q.drop_last() =~= seq![a] + p.drop_last()); assert(q.last() == p.last());
        lemma_prepend(g, a, p.drop_last(), g.tail[p.last() as int] as int);
    }
}
pub proof fn lemma_rev_push(s: Seq<u32>, a: u32)
    ensures s.push(a).reverse() =~= seq![a] + s.reverse()
{}
// np lists the nodes along the arcs ap
pub open spec fn nodes_of(g: G, np: Seq<u32>, ap: Seq<u32>, s: int, t: int) -> bool {
    &&& np.len() == ap.len() + 1
    &&& np[0] == s && np[np.len() - 1] == t
    &&& forall|k: int| 0 <= k < ap.len() ==> np[k] == g.tail[#[trigger] ap[k] as int] && np[k + 1] == g.head[ap[k] as int]
}
