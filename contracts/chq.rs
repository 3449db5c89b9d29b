// ---- one direction of the search
pub struct S { pub w: TimestampFlags, pub q: MinIDQueue, pub td: Seq<u32>, pub pn: Seq<u32>, pub pa: Seq<u32> }
pub open spec fn sd(w: TimestampFlags, q: MinIDQueue, td: Seq<u32>, pn: Seq<u32>, pa: Seq<u32>) -> S { S { w, q, td, pn, pa } }
impl S {
    // v has been labelled
    pub open spec fn pu(&self, v: int) -> bool { 0 <= v < self.td.len() && self.w.flag(v) }
    // v has been taken from the queue
    pub open spec fn po(&self, v: int) -> bool { self.pu(v) && !self.q.has(v) }
    pub open spec fn sized(&self, n: int) -> bool {
        &&& self.w.wf() && self.w.last_seen@.len() == n && self.q.wf() && self.q.n() == n
        &&& self.td.len() == n && self.pn.len() >= n && self.pa.len() == n
    }
    pub open spec fn wit(&self, x: Up, src: Map<int, int>, v: int) -> bool {
        if self.pn[v] == INV() { src.contains_key(v) && self.td[v] == src[v] }
        else {
            &&& self.pn[v] < v && self.po(self.pn[v] as int)
            &&& x.arc(self.pn[v] as int, self.pa[v] as int) && x.head[self.pa[v] as int] == v
            &&& self.td[v] == self.td[self.pn[v] as int] + x.wt[self.pa[v] as int]
        }
    }
    // the arc a of v has been relaxed
    pub open spec fn rel(&self, x: Up, v: int, a: int) -> bool { self.td[v] + x.wt[a] >= INF() || (self.pu(x.head[a] as int) && self.td[x.head[a] as int] <= self.td[v] + x.wt[a]) }
    pub open spec fn relaxed(&self, x: Up, v: int) -> bool { forall|a: int| #[trigger] x.arc(v, a) ==> self.rel(x, v, a) }
    pub open spec fn stall(&self, y: Up, v: int, a: int) -> bool { y.arc(v, a) && self.pu(y.head[a] as int) && self.td[y.head[a] as int] + y.wt[a] <= self.td[v] }
    pub open spec fn stalled(&self, y: Up, v: int) -> bool { exists|a: int| #[trigger] self.stall(y, v, a) }
    #[verifier::opaque]
    pub open spec fn done(&self, h: H, st: bool, v: int) -> bool { self.relaxed(h.f, v) || (st && self.stalled(h.b, v)) }
    pub open spec fn ordered(&self) -> bool { forall|u: int, v: int| #[trigger] self.po(u) && #[trigger] self.q.has(v) ==> self.td[u] <= self.td[v] }
    pub open spec fn keyed(&self) -> bool { forall|v: int| #[trigger] self.q.has(v) ==> self.pu(v) && self.q.key(v) == self.td[v] }
    pub open spec fn small(&self) -> bool { forall|v: int| #[trigger] self.pu(v) ==> self.td[v] < INF() }
    pub open spec fn wits(&self, x: Up, src: Map<int, int>) -> bool { forall|v: int| #[trigger] self.pu(v) ==> self.wit(x, src, v) }
    pub open spec fn srcs(&self, src: Map<int, int>) -> bool { forall|s: int| #[trigger] src.contains_key(s) ==> self.pu(s) && self.td[s] <= src[s] }
    pub open spec fn dones(&self, h: H, st: bool, x: int) -> bool { forall|v: int| #[trigger] self.po(v) && v != x ==> self.done(h, st, v) }
    // search invariant; all settled nodes but x are done
    #[verifier::opaque]
    pub open spec fn inv_but(&self, h: H, n: int, src: Map<int, int>, st: bool, x: int) -> bool {
        &&& hwf(h, n) && self.sized(n) && ends_ok(src, n)
        &&& self.keyed() && self.small() && self.ordered()
        &&& self.wits(h.f, src) && self.srcs(src) && self.dones(h, st, x)
    }
    pub open spec fn inv(&self, h: H, n: int, src: Map<int, int>, st: bool) -> bool { self.inv_but(h, n, src, st, -1) }
    pub open spec fn later(&self, o: &S) -> bool {
        &&& self.td.len() == o.td.len()
        &&& forall|v: int| #[trigger] o.pu(v) ==> self.pu(v) && self.td[v] <= o.td[v]
        &&& forall|v: int| #[trigger] o.po(v) ==> self.po(v) && self.td[v] == o.td[v]
    }
    // no node is settled yet: the queue holds the sources
    pub open spec fn fresh(&self, n: int) -> bool {
        &&& self.sized(n) && self.keyed() && self.small()
        &&& forall|v: int| #[trigger] self.pu(v) ==> self.q.has(v) && self.pn[v] == INV()
    }
    pub open spec fn map(&self) -> Map<int, int> { qmap(self.q) }
    // number of unlabelled nodes below k
    pub open spec fn free(&self, k: int) -> int
        decreases k
    { if k <= 0 { 0 } else { self.free(k - 1) + if self.pu(k - 1) { 0int } else { 1 } } }
    pub open spec fn meas(&self, n: int) -> int { 2 * self.free(n) + self.q.heap_size }
}
pub open spec fn qmap(q: MinIDQueue) -> Map<int, int> { Map::new(vstd::set_lib::set_int_range(0, q.n()).filter(|v: int| q.has(v)), |v: int| q.key(v) as int) }
pub proof fn lemma_done_mono(s: &S, t: &S, h: H, st: bool, v: int)
    requires t.later(s), s.po(v), s.done(h, st, v),
    ensures t.done(h, st, v)
{
    reveal(S::done);
    if s.relaxed(h.f, v) {
        assert forall|a: int| #[trigger] h.f.arc(v, a) implies t.rel(h.f, v, a) by { assert(s.rel(h.f, v, a)); }
    } else {
        let a = choose|a: int| #[trigger] s.stall(h.b, v, a);
        assert(t.stall(h.b, v, a));
    }
}
pub proof fn lemma_free(s: &S, t: &S, k: int)
    requires forall|v: int| #[trigger] s.pu(v) ==> t.pu(v),
    ensures t.free(k) <= s.free(k), (exists|x: int| 0 <= x < k && #[trigger] t.pu(x) && !s.pu(x)) ==> t.free(k) < s.free(k), t.free(k) >= 0
    decreases k
{
    if k > 0 {
        lemma_free(s, t, k - 1);
        if exists|x: int| 0 <= x < k && #[trigger] t.pu(x) && !s.pu(x) {
            let x = choose|x: int| 0 <= x < k && #[trigger] t.pu(x) && !s.pu(x);
            if x < k - 1 { assert(t.pu(x)); }
        }
    }
}
pub proof fn lemma_fresh(s: &S, h: H, n: int, st: bool)
    requires hwf(h, n), s.fresh(n),
    ensures s.inv(h, n, s.map(), st)
{
    reveal(S::inv_but);
    let src = s.map();
    assert forall|v: int| #[trigger] src.contains_key(v) implies 0 <= v < n && 0 <= src[v] < INF() by { assert(s.q.has(v)); assert(s.pu(v)); }
    assert forall|v: int| #[trigger] src.contains_key(v) implies s.pu(v) && s.td[v] <= src[v] by { assert(s.q.has(v)); }
    assert forall|v: int| #[trigger] s.pu(v) implies s.wit(h.f, src, v) by { assert(s.q.has(v)); assert(src.contains_key(v)); }
}
// taking node v with the least key from the queue
pub open spec fn popped_from(s: &S, t: &S, v: int) -> bool {
    &&& t.w == s.w && t.td == s.td && t.pn == s.pn && t.pa == s.pa
    &&& t.q.wf() && t.q.n() == s.q.n() && t.q.heap_size == s.q.heap_size - 1 && s.q.has(v)
    &&& forall|i: int| #[trigger] s.q.has(i) ==> s.q.key(v) <= s.q.key(i)
    &&& forall|i: int| #[trigger] t.q.has(i) == (s.q.has(i) && i != v)
    &&& forall|i: int| #[trigger] t.q.has(i) ==> t.q.key(i) == s.q.key(i)
}
pub open spec fn fence(s: &S, v: int) -> bool {
    &&& s.po(v)
    &&& forall|u: int| #[trigger] s.po(u) ==> s.td[u] <= s.td[v]
    &&& forall|u: int| #[trigger] s.q.has(u) ==> s.td[v] <= s.td[u]
}
pub proof fn lemma_pop(s: &S, t: &S, h: H, n: int, src: Map<int, int>, st: bool, v: int)
    requires s.inv(h, n, src, st), popped_from(s, t, v),
    ensures t.inv_but(h, n, src, st, v), t.later(s), fence(t, v), s.pu(v), !s.po(v), s.q.key(v) == s.td[v], t.meas(n) < s.meas(n),
        forall|u: int| #[trigger] t.po(u) ==> s.po(u) || u == v
{
    reveal(S::inv_but);
    assert(s.pu(v));
    assert(t.later(s)) by { assert forall|u: int| #[trigger] s.po(u) implies t.po(u) && t.td[u] == s.td[u] by { assert(!t.q.has(u)); } }
    assert forall|u: int| #[trigger] t.pu(u) implies t.wit(h.f, src, u) by { assert(s.pu(u)); assert(s.wit(h.f, src, u)); }
    assert forall|u: int| #[trigger] t.po(u) implies s.po(u) || u == v by { assert(t.q.has(u) == (s.q.has(u) && u != v)); }
    assert forall|u: int| #[trigger] t.po(u) implies t.td[u] <= t.td[v] by { if u != v { assert(s.po(u)); } }
    assert forall|u: int| #[trigger] t.q.has(u) implies t.td[v] <= t.td[u] by { assert(s.q.has(u)); }
    assert forall|u: int| #[trigger] t.po(u) && u != v implies t.done(h, st, u) by { assert(s.po(u)); lemma_done_mono(s, t, h, st, u); }
    assert forall|u: int| #[trigger] t.q.has(u) implies t.pu(u) && t.q.key(u) == t.td[u] by { assert(s.q.has(u)); assert(s.pu(u)); }
    assert forall|u: int| #[trigger] t.pu(u) implies t.td[u] < INF() by { assert(s.pu(u)); }
    assert forall|u: int| #[trigger] src.contains_key(u) implies t.pu(u) && t.td[u] <= src[u] by { assert(s.pu(u)); }
    assert(s.srcs(src)); assert(t.q.n() == n); assert(t.sized(n)); assert(t.keyed()); assert(t.small());
    assert forall|u: int| #[trigger] s.pu(u) implies t.pu(u) by { }
    lemma_free(s, t, n);
}
// setting the label of x to d, reached over arc a from the settled node v
pub open spec fn labelled(s: &S, t: &S, v: int, a: int, x: int, d: u32) -> bool {
    &&& t.w.wf() && t.w.last_seen@.len() == s.w.last_seen@.len()
    &&& forall|i: int| 0 <= i < t.w.last_seen@.len() ==> #[trigger] t.w.flag(i) == (i == x || s.w.flag(i))
    &&& t.td == s.td.update(x, d) && t.pn == s.pn.update(x, v as u32) && t.pa == s.pa.update(x, a as u32)
    &&& t.q.wf() && t.q.n() == s.q.n()
    &&& t.q.heap_size == s.q.heap_size + if s.q.has(x) { 0int } else { 1 }
    &&& forall|i: int| #[trigger] t.q.has(i) == (s.q.has(i) || i == x)
    &&& forall|i: int| #[trigger] t.q.has(i) ==> t.q.key(i) == (if i == x { d } else { s.q.key(i) })
}
pub proof fn lemma_label(s: &S, t: &S, h: H, n: int, src: Map<int, int>, st: bool, v: int, a: int, d: u32)
    requires s.inv_but(h, n, src, st, v), fence(s, v), h.f.arc(v, a), labelled(s, t, v, a, h.f.head[a] as int, d), d == s.td[v] + h.f.wt[a], d < INF(),
        s.pu(h.f.head[a] as int) ==> d < s.td[h.f.head[a] as int],
    ensures t.inv_but(h, n, src, st, v), fence(t, v), t.later(s), t.meas(n) <= s.meas(n), t.rel(h.f, v, a), t.td[v] == s.td[v],
        forall|u: int| #[trigger] t.po(u) ==> s.po(u)
{
    reveal(S::inv_but);
    let x = h.f.head[a] as int;
    assert(v < x < n);
    assert(!s.po(x));
    assert forall|u: int| #[trigger] s.pu(u) implies t.pu(u) && t.td[u] <= s.td[u] by { assert(t.w.flag(u)); }
    assert forall|u: int| #[trigger] s.po(u) implies t.po(u) && t.td[u] == s.td[u] by { assert(t.pu(u)); assert(!t.q.has(u)); }
    assert forall|u: int| #[trigger] t.po(u) implies s.po(u) by { assert(t.w.flag(u) == (u == x || s.w.flag(u))); assert(t.q.has(u) == (s.q.has(u) || u == x)); }
    assert(t.later(s));
    assert forall|u: int| #[trigger] t.pu(u) implies t.wit(h.f, src, u) && t.td[u] < INF() by {
        if u != x { assert(t.w.flag(u) == s.w.flag(u)); assert(s.pu(u)); assert(s.wit(h.f, src, u)); if s.pn[u] != INV() { assert(s.po(s.pn[u] as int)); assert(t.po(s.pn[u] as int)); } }
        else { assert(t.po(v)); }
    }
    assert forall|u: int| #[trigger] t.q.has(u) implies t.pu(u) && t.q.key(u) == t.td[u] by { if u != x { assert(s.q.has(u)); assert(s.pu(u)); } }
    assert forall|u: int| #[trigger] t.po(u) && u != v implies t.done(h, st, u) by { assert(s.po(u)); lemma_done_mono(s, t, h, st, u); }
    assert forall|u: int| #[trigger] t.po(u) implies t.td[u] <= t.td[v] by { assert(s.po(u)); }
    assert forall|u: int| #[trigger] t.q.has(u) implies t.td[v] <= t.td[u] by { if u != x { assert(s.q.has(u)); } }
    assert forall|u: int| #[trigger] src.contains_key(u) implies t.pu(u) && t.td[u] <= src[u] by { assert(s.pu(u)); }
    assert(t.keyed()); assert(t.small());
    lemma_free(s, t, n);
    if !s.q.has(x) { assert(!s.pu(x)); assert(t.pu(x)); assert(t.free(n) < s.free(n)); }
    assert(t.rel(h.f, v, a));
}
pub proof fn lemma_done(s: &S, h: H, n: int, src: Map<int, int>, st: bool, v: int)
    requires s.inv_but(h, n, src, st, v), s.po(v), s.done(h, st, v),
    ensures s.inv(h, n, src, st)
{ reveal(S::inv_but); }
// ---- what the labels mean
pub proof fn lemma_upper(s: &S, h: H, n: int, src: Map<int, int>, st: bool, x: int, v: int)
    requires s.inv_but(h, n, src, st, x), s.pu(v),
    ensures reach(h, src, v, s.td[v] as int), s.td[v] < INF(), 0 <= v < n
    decreases v
{
    reveal(S::inv_but);
    assert(s.wit(h.f, src, v));
    if s.pn[v] == INV() {
        assert(walk(h, Seq::<St>::empty(), v, v)); assert(wl(Seq::<St>::empty()) == 0);
        reach_intro(h, src, v, s.td[v] as int, v, Seq::<St>::empty());
    } else {
        let u = s.pn[v] as int; let a = s.pa[v] as int;
        assert(s.po(u));
        lemma_upper(s, h, n, src, st, x, u);
        let e = St { u: u, v: v, w: h.f.wt[a] as int, a: a };
        assert(ups(h.f, e));
        reach_step(h, src, s.td[u] as int, e);
    }
}
// nothing below k is left in the queue
pub open spec fn beyond(s: &S, k: int) -> bool { forall|u: int| #[trigger] s.q.has(u) ==> k <= s.td[u] }
// the search climbs along the upward path p to the top node m
pub proof fn lemma_climb(s: &S, h: H, n: int, src: Map<int, int>, tgt: Map<int, int>, k: int, m: int, a: int, b: int, v: int, p: Seq<St>)
    requires s.inv(h, n, src, true), ud(h), beyond(s, k), top(h, src, tgt, m, a, b), a + b < k, k <= INF(), ends_ok(tgt, n),
        s.pu(v), up(h.f, p, v, m), s.td[v] + wl(p) <= a,
    ensures s.po(m), s.td[m] <= a
    decreases n - v
{
    reveal(S::inv_but);
    lemma_upper(s, h, n, src, true, -1, v);
    lemma_up_rank(h.f, n, p, v, m);
    let (t, q) = reach_open(rev(h), tgt, m, b);
    assert(tgt.contains_key(t));
    assert(b >= 0);
    if s.q.has(v) { assert(false); }
    assert(s.po(v));
    if p.len() > 0 {
        assert(s.done(h, true, v));
        reveal(S::done);
        if s.relaxed(h.f, v) {
            let e = p[0];
            assert(h.f.arc(v, e.a));
            assert(s.rel(h.f, v, e.a));
            lemma_up_rank(h.f, n, p.drop_first(), e.v, m);
            assert(s.td[v] + e.w <= a);
            lemma_climb(s, h, n, src, tgt, k, m, a, b, e.v, p.drop_first());
        } else {
            let c = choose|c: int| #[trigger] s.stall(h.b, v, c);
            let x = h.b.head[c] as int;
            let e = St { u: x, v: v, w: h.b.wt[c] as int, a: c };
            assert(ups(h.b, rs(e)));
            assert(step(h, e));
            lemma_single(h, e);
            lemma_up_walk(h, p, v, m);
            lemma_cat(h, seq![e], p, x, v, m);
            lemma_upper(s, h, n, src, true, -1, x);
            assert(h.b.arc(v, c));
            let r = lemma_top_up(h, src, tgt, n, m, a, b, x, s.td[x] as int, seq![e] + p);
            lemma_climb(s, h, n, src, tgt, k, m, a, b, x, r);
        }
    }
}
// the search reaches the top node
pub proof fn lemma_side(s: &S, h: H, n: int, src: Map<int, int>, tgt: Map<int, int>, k: int, m: int, a: int, b: int)
    requires s.inv(h, n, src, true), ud(h), beyond(s, k), top(h, src, tgt, m, a, b), a + b < k, k <= INF(), ends_ok(tgt, n),
    ensures s.po(m), s.td[m] <= a
{
    reveal(S::inv_but);
    let (z, p) = reach_open(h, src, m, a);
    assert(s.pu(z));
    lemma_upper(s, h, n, src, true, -1, z);
    let r = lemma_top_up(h, src, tgt, n, m, a, b, z, s.td[z] as int, p);
    lemma_climb(s, h, n, src, tgt, k, m, a, b, z, r);
}
pub open spec fn met(f: &S, b: &S, spl: int) -> bool { forall|v: int| #[trigger] f.po(v) && #[trigger] b.po(v) ==> spl <= f.td[v] + b.td[v] }
pub proof fn lemma_on_rev(h: H, src: Map<int, int>, tgt: Map<int, int>, m: int, a: int, b: int)
    requires top(h, src, tgt, m, a, b),
    ensures top(rev(h), tgt, src, m, b, a)
{
    assert(rev(rev(h)) == h);
    assert forall|v: int, c: int, d: int| #[trigger] on(rev(h), tgt, src, v, c, d) implies a + b <= c + d && (c + d == a + b ==> v <= m) by { assert(on(h, src, tgt, v, d, c)); }
}
pub proof fn lemma_exact(f: &S, b: &S, h: H, n: int, src: Map<int, int>, tgt: Map<int, int>, spl: int, e: int)
    requires f.inv(h, n, src, true), b.inv(rev(h), n, tgt, true), ud(h), beyond(f, spl), beyond(b, spl), met(f, b, spl), spl <= INF(), tot(h, src, tgt, e),
    ensures spl <= e
{
    if e < spl {
        assert(ends_ok(src, n) && ends_ok(tgt, n) && hwf(h, n)) by { reveal(S::inv_but); }
        let (v, c, d) = lemma_tot_on(h, src, tgt, e);
        let (v1, c1, d1) = lemma_least(h, src, tgt, n, v, c, d);
        let (m, x, y) = lemma_top(h, src, tgt, n, v1, c1, d1);
        lemma_side(f, h, n, src, tgt, spl, m, x, y);
        lemma_ud_rev(h);
        lemma_on_rev(h, src, tgt, m, x, y);
        lemma_side(b, rev(h), n, tgt, src, spl, m, y, x);
    }
}
// the best label sum known so far and where it was found
pub open spec fn cand(f: &S, b: &S, spl: int, meet: int) -> bool {
    if meet == INV() { spl == INF() } else { f.pu(meet) && b.pu(meet) && f.td[meet] + b.td[meet] <= spl < INF() }
}
pub open spec fn res(f: &S, b: &S, meet: int) -> int { if meet == INV() { INF() } else { f.td[meet] + b.td[meet] } }
pub proof fn lemma_result(f: &S, b: &S, h: H, n: int, src: Map<int, int>, tgt: Map<int, int>, spl: int, meet: int)
    requires f.inv(h, n, src, true), b.inv(rev(h), n, tgt, true), ud(h), beyond(f, spl), beyond(b, spl), met(f, b, spl), cand(f, b, spl, meet),
    ensures shortest(h, src, tgt, res(f, b, meet))
{
    let d = res(f, b, meet);
    assert forall|e: int| #[trigger] tot(h, src, tgt, e) implies d <= e || INF() <= e by { lemma_exact(f, b, h, n, src, tgt, spl, e); }
    if meet != INV() {
        lemma_upper(f, h, n, src, true, -1, meet);
        lemma_upper(b, rev(h), n, tgt, true, -1, meet);
        assert(on(h, src, tgt, meet, f.td[meet] as int, b.td[meet] as int));
        let (s, t, p) = lemma_on_tot(h, src, tgt, meet, f.td[meet] as int, b.td[meet] as int);
    }
}
pub proof fn lemma_parts(s: &S, h: H, n: int, src: Map<int, int>, st: bool, x: int)
    requires s.inv_but(h, n, src, st, x),
    ensures hwf(h, n), s.sized(n), s.keyed(), s.small(), ends_ok(src, n), forall|v: int| 0 <= v < n && #[trigger] s.w.flag(v) ==> s.td[v] < INF()
{ reveal(S::inv_but); assert forall|v: int| 0 <= v < n && #[trigger] s.w.flag(v) implies s.td[v] < INF() by { assert(s.pu(v)); } }
// ---- the classes
pub open spec fn mkup(fo: Seq<u32>, head: Seq<u32>, wt: Seq<u32>) -> Up { Up { fo, head, wt } }
impl Side { pub open spec fn up(&self) -> Up { mkup(self.first_out@, self.head@, self.weight@) } }
impl ContractionHierarchy {
    pub open spec fn h(&self) -> H { H { f: self.forward.up(), b: self.backward.up() } }
    pub open spec fn n(&self) -> int { self.rank@.len() as int }
    // what building a hierarchy establishes
    pub open spec fn wf(&self) -> bool {
        &&& hwf(self.h(), self.n()) && ud(self.h())
        &&& self.order@.len() == self.n()
        &&& forall|v: int| 0 <= v < self.n() ==> (#[trigger] self.rank@[v]) < self.n() && self.order@[self.rank@[v] as int] == v
        &&& forall|x: int| 0 <= x < self.n() ==> (#[trigger] self.order@[x]) < self.n() && self.rank@[self.order@[x] as int] == x
    }
}
impl ContractionHierarchyQuery {
    pub open spec fn c(&self) -> ContractionHierarchy { self.ch.val() }
    pub open spec fn h(&self) -> H { self.c().h() }
    pub open spec fn n(&self) -> int { self.c().n() }
    pub open spec fn f(&self) -> S { sd(self.was_forward_pushed, self.forward_queue, self.forward_tentative_distance@, self.forward_predecessor_node@, self.forward_predecessor_arc@) }
    pub open spec fn b(&self) -> S { sd(self.was_backward_pushed, self.backward_queue, self.backward_tentative_distance@, self.backward_predecessor_node@, self.backward_predecessor_arc@) }
    pub open spec fn shape(&self) -> bool { !self.ch.null() && self.c().wf() && self.f().sized(self.n()) && self.b().sized(self.n()) }
    // ready for add_source, add_target and run
    pub open spec fn ready(&self) -> bool { self.shape() && self.state == 0 && self.f().fresh(self.n()) && self.b().fresh(self.n()) }
    pub open spec fn dist(&self) -> int { res(&self.f(), &self.b(), self.shortest_path_meeting_node as int) }
    // run has been called with these sources and targets
    pub open spec fn ran(&self, src: Map<int, int>, tgt: Map<int, int>) -> bool {
        &&& self.shape() && self.state == 1
        &&& self.f().inv(self.h(), self.n(), src, true) && self.b().inv(rev(self.h()), self.n(), tgt, true)
        &&& self.shortest_path_meeting_node == INV() || (self.f().pu(self.shortest_path_meeting_node as int) && self.b().pu(self.shortest_path_meeting_node as int) && self.dist() < INF())
        &&& shortest(self.h(), src, tgt, self.dist())
    }
}
pub open spec fn no_ends() -> Map<int, int> { Map::empty() }
pub proof fn lemma_no_ends(q: MinIDQueue)
    requires forall|i: int| !#[trigger] q.has(i),
    ensures qmap(q) == no_ends()
{ assert(qmap(q) =~= no_ends()); }
// adding an end keeps the cheaper cost
pub open spec fn with_end(src: Map<int, int>, s: int, d: int) -> Map<int, int> { if src.contains_key(s) && src[s] <= d { src } else { src.insert(s, d) } }
pub open spec fn added(s: &S, t: &S, x: int, d: u32) -> bool {
    &&& t.w.wf() && t.w.last_seen@.len() == s.w.last_seen@.len()
    &&& forall|i: int| 0 <= i < t.w.last_seen@.len() ==> #[trigger] t.w.flag(i) == (i == x || s.w.flag(i))
    &&& t.pa == s.pa && t.q.wf() && t.q.n() == s.q.n()
    &&& forall|i: int| #[trigger] t.q.has(i) == (s.q.has(i) || i == x)
    &&& if s.q.has(x) && s.td[x] <= d { t.td == s.td && t.pn == s.pn && forall|i: int| #[trigger] t.q.has(i) ==> t.q.key(i) == s.q.key(i) }
        else {
            &&& t.td == s.td.update(x, d) && (t.pn == s.pn || t.pn == s.pn.update(x, 0xFFFF_FFFFu32)) && t.pn[x] == INV()
            &&& forall|i: int| #[trigger] t.q.has(i) ==> t.q.key(i) == (if i == x { d } else { s.q.key(i) })
        }
}
pub proof fn lemma_added(s: &S, t: &S, n: int, x: int, d: u32)
    requires s.fresh(n), added(s, t, x, d), 0 <= x < n, d < INF(),
    ensures t.fresh(n), t.map() == with_end(s.map(), x, d as int)
{
    assert forall|v: int| #[trigger] t.pu(v) implies t.q.has(v) && t.pn[v] == INV() && t.td[v] < INF() by { if v != x { assert(t.w.flag(v) == s.w.flag(v)); assert(s.pu(v)); } else if s.q.has(x) { assert(s.pu(x)); } }
    assert forall|v: int| #[trigger] t.q.has(v) implies t.pu(v) && t.q.key(v) == t.td[v] by { if s.q.has(v) { assert(s.pu(v)); } assert(0 <= v < t.w.last_seen@.len()); }
    assert forall|v: int| #[trigger] s.map().contains_key(v) implies s.map()[v] == s.td[v] by { assert(s.q.has(v)); }
    assert(t.map() =~= with_end(s.map(), x, d as int)) by {
        assert forall|v: int| #[trigger] t.map().contains_key(v) == with_end(s.map(), x, d as int).contains_key(v) by { assert(t.q.has(v) == (s.q.has(v) || v == x)); }
        assert forall|v: int| #[trigger] t.map().contains_key(v) implies t.map()[v] == with_end(s.map(), x, d as int)[v] by { assert(t.q.has(v)); if s.q.has(v) { assert(s.map().contains_key(v)); } }
    }
}
pub proof fn lemma_met_sym(f: &S, b: &S, spl: int, meet: int)
    ensures met(f, b, spl) == met(b, f, spl), cand(f, b, spl, meet) == cand(b, f, spl, meet)
{
    if met(f, b, spl) { assert forall|v: int| #[trigger] b.po(v) && #[trigger] f.po(v) implies spl <= b.td[v] + f.td[v] by {} }
    if met(b, f, spl) { assert forall|v: int| #[trigger] f.po(v) && #[trigger] b.po(v) implies spl <= f.td[v] + b.td[v] by {} }
}
// following predecessors from v: u lies on the way
pub proof fn lemma_trace(s: &S, h: H, n: int, src: Map<int, int>, st: bool, v: int, u: int, p: Seq<St>) -> (r: Seq<St>)
    requires s.inv(h, n, src, st), s.pu(u), up(h.f, p, u, v), s.td[u] + wl(p) == s.td[v], s.pn[u] != INV(),
    ensures s.pn[u] < u, s.pu(s.pn[u] as int), up(h.f, r, s.pn[u] as int, v), s.td[s.pn[u] as int] + wl(r) == s.td[v], s.po(s.pn[u] as int)
{
    assert(s.wit(h.f, src, u)) by { reveal(S::inv_but); }
    let w = s.pn[u] as int; let a = s.pa[u] as int;
    let e = St { u: w, v: u, w: h.f.wt[a] as int, a: a };
    let r = seq![e] + p;
    assert(r.drop_first() =~= p); assert(r[0] == e);
    assert(s.po(w));
    r
}
// s is a source of a shortest connection
pub open spec fn used_source(h: H, src: Map<int, int>, tgt: Map<int, int>, s: int, d: int) -> bool { exists|t: int, p: Seq<St>| #[trigger] conn(h, src, tgt, s, t, p, d) }
pub open spec fn used_target(h: H, src: Map<int, int>, tgt: Map<int, int>, t: int, d: int) -> bool { exists|s: int, p: Seq<St>| #[trigger] conn(h, src, tgt, s, t, p, d) }
pub proof fn lemma_used(f: &S, h: H, n: int, src: Map<int, int>, tgt: Map<int, int>, m: int, b: int, u: int, p: Seq<St>)
    requires f.inv(h, n, src, true), f.pu(u), f.pu(m), f.pn[u] == INV(), up(h.f, p, u, m), f.td[u] + wl(p) == f.td[m], reach(rev(h), tgt, m, b),
    ensures used_source(h, src, tgt, u, f.td[m] + b), src.contains_key(u), 0 <= u < n
{
    reveal(S::inv_but);
    assert(f.wit(h.f, src, u));
    lemma_up_walk(h, p, u, m);
    let (t, q) = reach_open(rev(h), tgt, m, b);
    lemma_rev_walk(rev(h), q, t, m);
    assert(rev(rev(h)) == h);
    lemma_cat(h, p, rp(q), u, m, t);
    assert(conn(h, src, tgt, u, t, p + rp(q), f.td[m] + b));
}
pub proof fn lemma_used_rev(h: H, src: Map<int, int>, tgt: Map<int, int>, t: int, d: int)
    requires used_source(rev(h), tgt, src, t, d),
    ensures used_target(h, src, tgt, t, d)
{
    let (s, p) = choose|s: int, p: Seq<St>| #[trigger] conn(rev(h), tgt, src, t, s, p, d);
    lemma_rev_walk(rev(h), p, t, s);
    assert(rev(rev(h)) == h);
    assert(conn(h, src, tgt, s, t, rp(p), d));
}

// ---- pinned queries
// the least cost of reaching v, where everything from INF on counts as not reached
pub open spec fn nearest(h: H, src: Map<int, int>, v: int, d: int) -> bool {
    &&& forall|e: int| #[trigger] reach(h, src, v, e) ==> d <= e || INF() <= e
    &&& d <= INF() && (d < INF() ==> reach(h, src, v, d))
}
pub open spec fn insel(sel: Seq<u32>, cnt: int, x: int) -> bool { exists|i: int| 0 <= i < cnt && #[trigger] sel[i] == x }
// the selected nodes in decreasing order, closed under the arcs of y
pub open spec fn sel_ok(y: Up, n: int, sel: Seq<u32>, cnt: int) -> bool {
    &&& 0 <= cnt <= n && cnt <= sel.len()
    &&& forall|i: int| 0 <= i < cnt ==> #[trigger] sel[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < cnt ==> #[trigger] sel[i] > #[trigger] sel[j]
    &&& forall|i: int, a: int| 0 <= i < cnt && #[trigger] y.arc(#[trigger] sel[i] as int, a) ==> insel(sel, cnt, y.head[a] as int)
}
pub open spec fn list_ok(sel: Seq<u32>, cnt: int, tl: Seq<u32>, list: Seq<u32>) -> bool {
    &&& tl.len() >= list.len() && list.len() <= 0xFFFF_FFFF
    &&& forall|i: int| 0 <= i < list.len() ==> #[trigger] tl[i] == list[i] && insel(sel, cnt, list[i] as int)
}
pub open spec fn inner_list(rank: Seq<u32>, list: Seq<u32>) -> Seq<u32> { Seq::new(list.len(), |i: int| rank[list[i] as int]) }
// without stalling the upward distances are exact
pub proof fn lemma_up_exact(s: &S, h: H, n: int, src: Map<int, int>, v: int, p: Seq<St>, m: int)
    requires s.inv(h, n, src, false), forall|u: int| !#[trigger] s.q.has(u), s.pu(v), up(h.f, p, v, m), s.td[v] + wl(p) < INF(),
    ensures s.pu(m), s.td[m] <= s.td[v] + wl(p)
    decreases p.len()
{
    assert(hwf(h, n)) by { reveal(S::inv_but); }
    if p.len() > 0 {
        assert(!s.q.has(v)); assert(s.po(v));
        assert(s.done(h, false, v)) by { reveal(S::inv_but); }
        reveal(S::done);
        let e = p[0];
        assert(h.f.arc(v, e.a));
        assert(s.rel(h.f, v, e.a));
        lemma_up_rank(h.f, n, p.drop_first(), e.v, m);
        lemma_up_exact(s, h, n, src, e.v, p.drop_first(), m);
    }
}
// the label of the swept node x, given the labels s of the upward search
pub open spec fn swept(s: &S, h: H, src: Map<int, int>, td: Seq<u32>, x: int) -> bool {
    &&& td[x] <= INF() && (td[x] < INF() ==> reach(h, src, x, td[x] as int))
    &&& s.pu(x) ==> td[x] <= s.td[x]
    &&& forall|a: int| #[trigger] h.b.arc(x, a) ==> td[x] <= td[h.b.head[a] as int] + h.b.wt[a]
}
// how the used source is found from the swept node x
pub open spec fn traced(s: &S, h: H, td: Seq<u32>, w: &TimestampFlags, pa: Seq<u32>, x: int) -> bool {
    if w.flag(x) { s.pu(x) && td[x] == s.td[x] && pa[x] == s.pa[x] }
    else if pa[x] == INV() { td[x] == INF() }
    else { td[x] < INF() && (s.pu(x) ==> td[x] < s.td[x]) && h.b.arc(x, pa[x] as int) && td[x] == td[h.b.head[pa[x] as int] as int] + h.b.wt[pa[x] as int] }
}
pub proof fn lemma_down(s: &S, h: H, n: int, src: Map<int, int>, td: Seq<u32>, sel: Seq<u32>, cnt: int, x: int, q: Seq<St>, z: int)
    requires hwf(h, n), sel_ok(h.b, n, sel, cnt), insel(sel, cnt, x), up(h.b, q, x, z), s.pu(z), forall|i: int| 0 <= i < cnt ==> swept(s, h, src, td, #[trigger] sel[i] as int),
    ensures td[x] <= s.td[z] + wl(q)
    decreases q.len()
{
    let i = choose|i: int| 0 <= i < cnt && #[trigger] sel[i] == x;
    assert(swept(s, h, src, td, sel[i] as int));
    if q.len() > 0 {
        let e = q[0];
        assert(h.b.arc(sel[i] as int, e.a));
        lemma_down(s, h, n, src, td, sel, cnt, e.v, q.drop_first(), z);
    }
}
pub proof fn lemma_nearest(s: &S, h: H, n: int, src: Map<int, int>, td: Seq<u32>, sel: Seq<u32>, cnt: int, x: int)
    requires s.inv(h, n, src, false), forall|u: int| !#[trigger] s.q.has(u), ud(h), sel_ok(h.b, n, sel, cnt), insel(sel, cnt, x), forall|i: int| 0 <= i < cnt ==> swept(s, h, src, td, #[trigger] sel[i] as int),
    ensures nearest(h, src, x, td[x] as int)
{
    lemma_parts(s, h, n, src, false, -1);
    assert(s.srcs(src)) by { reveal(S::inv_but); }
    let i = choose|i: int| 0 <= i < cnt && #[trigger] sel[i] == x;
    assert(swept(s, h, src, td, sel[i] as int));
    assert forall|e: int| #[trigger] reach(h, src, x, e) implies td[x] <= e || INF() <= e by {
        let (z, p) = reach_open(h, src, x, e);
        if e < INF() {
            let (m, p1, p2) = lemma_ud_open(h, p, z, x);
            lemma_up_rank(h.f, n, p1, z, m); lemma_up_rank(h.b, n, p2, x, m);
            assert(s.pu(z));
            lemma_up_exact(s, h, n, src, z, p1, m);
            lemma_down(s, h, n, src, td, sel, cnt, x, p2, m);
        }
    }
}
impl ContractionHierarchyQuery {
    pub open spec fn cnt(&self) -> int { self.shortest_path_meeting_node as int }
    // these targets (sources) are pinned
    pub open spec fn pinned_t(&self, list: Seq<u32>) -> bool {
        &&& self.shape() && self.many_to_many_source_or_target_count == list.len()
        &&& sel_ok(self.h().b, self.n(), self.backward_tentative_distance@, self.cnt())
        &&& list_ok(self.backward_tentative_distance@, self.cnt(), self.backward_predecessor_node@, list)
    }
    pub open spec fn pinned_s(&self, list: Seq<u32>) -> bool {
        &&& self.shape() && self.many_to_many_source_or_target_count == list.len()
        &&& sel_ok(self.h().f, self.n(), self.forward_tentative_distance@, self.cnt())
        &&& list_ok(self.forward_tentative_distance@, self.cnt(), self.forward_predecessor_node@, list)
    }
    pub open spec fn ran_t(&self, src: Map<int, int>, list: Seq<u32>, s: S) -> bool {
        &&& self.pinned_t(list) && self.state == 5
        &&& s.inv(self.h(), self.n(), src, false) && forall|u: int| !#[trigger] s.q.has(u)
        &&& self.forward_predecessor_node@ == s.pn && swept_all(&s, self.h(), src, self.f(), self.backward_tentative_distance@, self.cnt())
    }
    pub open spec fn ran_s(&self, tgt: Map<int, int>, list: Seq<u32>, s: S) -> bool {
        &&& self.pinned_s(list) && self.state == 3
        &&& s.inv(rev(self.h()), self.n(), tgt, false) && forall|u: int| !#[trigger] s.q.has(u)
        &&& self.backward_predecessor_node@ == s.pn && swept_all(&s, rev(self.h()), tgt, self.b(), self.forward_tentative_distance@, self.cnt())
    }
}
pub open spec fn swept_all(s: &S, h: H, src: Map<int, int>, t: S, sel: Seq<u32>, cnt: int) -> bool {
    &&& forall|i: int| 0 <= i < cnt ==> swept(s, h, src, t.td, #[trigger] sel[i] as int) && traced(s, h, t.td, &t.w, t.pa, sel[i] as int)
    &&& forall|v: int| #[trigger] s.pu(v) && !insel(sel, cnt, v) ==> t.td[v] == s.td[v] && t.w.flag(v) && t.pa[v] == s.pa[v]
}
// the source o (in outer numbering) is one from which t is reached at cost d; none if t is not reached
pub open spec fn from(h: H, src: Map<int, int>, z: int, t: int, d: int) -> bool { exists|p: Seq<St>| #[trigger] reach_by(h, src, t, d, z, p) }
pub open spec fn used_to(h: H, src: Map<int, int>, order: Seq<u32>, t: int, d: int, o: u32) -> bool {
    if d == INF() { o == INV() } else { exists|z: int| 0 <= z < order.len() && #[trigger] from(h, src, z, t, d) && order[z] == o }
}
pub open spec fn after_sweep(s: &S, h: H, n: int, src: Map<int, int>, t: S, sel: Seq<u32>, cnt: int) -> bool {
    &&& s.inv(h, n, src, false) && (forall|u: int| !#[trigger] s.q.has(u)) && ud(h) && t.sized(n) && t.pn == s.pn
    &&& sel_ok(h.b, n, sel, cnt) && swept_all(s, h, src, t, sel, cnt)
}
// one step down from a node reached in the sweep
pub proof fn lemma_trace_down(s: &S, h: H, n: int, src: Map<int, int>, t: S, sel: Seq<u32>, cnt: int, x: int, p: Seq<St>, v: int) -> (r: Seq<St>)
    requires after_sweep(s, h, n, src, t, sel, cnt), insel(sel, cnt, x), !t.w.flag(x), walk(h, p, x, v), t.td[x] < INF(),
    ensures h.b.arc(x, t.pa[x] as int), x < h.b.head[t.pa[x] as int] < n, insel(sel, cnt, h.b.head[t.pa[x] as int] as int), t.td[h.b.head[t.pa[x] as int] as int] < INF(),
        walk(h, r, h.b.head[t.pa[x] as int] as int, v), t.td[h.b.head[t.pa[x] as int] as int] + wl(r) == t.td[x] + wl(p)
{
    lemma_parts(s, h, n, src, false, -1);
    let i = choose|i: int| 0 <= i < cnt && #[trigger] sel[i] == x;
    assert(traced(s, h, t.td, &t.w, t.pa, sel[i] as int));
    let a = t.pa[x] as int; let y = h.b.head[a] as int;
    assert(h.b.arc(sel[i] as int, a));
    let e = St { u: y, v: x, w: h.b.wt[a] as int, a: a };
    assert(ups(h.b, rs(e))); assert(step(h, e));
    let r = seq![e] + p;
    assert(r.drop_first() =~= p); assert(r[0] == e);
    r
}
// the nodes on the way back to the source keep their labels
pub proof fn lemma_still(s: &S, h: H, n: int, src: Map<int, int>, t: S, sel: Seq<u32>, cnt: int, x: int, p: Seq<St>, v: int)
    requires after_sweep(s, h, n, src, t, sel, cnt), insel(sel, cnt, v), walk(h, p, x, v), s.pu(x), s.td[x] + wl(p) == t.td[v], t.td[v] < INF(),
    ensures t.w.flag(x)
{
    if !t.w.flag(x) {
        if !insel(sel, cnt, x) { assert(s.pu(x)); assert(false); }
        let i = choose|i: int| 0 <= i < cnt && #[trigger] sel[i] == x;
        assert(traced(s, h, t.td, &t.w, t.pa, sel[i] as int)); assert(swept(s, h, src, t.td, sel[i] as int));
        lemma_parts(s, h, n, src, false, -1);
        assert(s.small()) by { reveal(S::inv_but); }
        assert(s.td[x] < INF());
        reach_walk(h, src, x, v, t.td[x] as int, p);
        lemma_nearest(s, h, n, src, t.td, sel, cnt, v);
    }
}
pub proof fn lemma_trace_up(s: &S, h: H, n: int, src: Map<int, int>, u: int, p: Seq<St>, v: int) -> (r: Seq<St>)
    requires s.inv(h, n, src, false), s.pu(u), walk(h, p, u, v), s.pn[u] != INV(),
    ensures s.pn[u] < u, s.pu(s.pn[u] as int), walk(h, r, s.pn[u] as int, v), s.td[s.pn[u] as int] + wl(r) == s.td[u] + wl(p)
{
    assert(s.wit(h.f, src, u)) by { reveal(S::inv_but); }
    let w = s.pn[u] as int; let a = s.pa[u] as int;
    let e = St { u: w, v: u, w: h.f.wt[a] as int, a: a };
    assert(ups(h.f, e)); assert(step(h, e));
    let r = seq![e] + p;
    assert(r.drop_first() =~= p); assert(r[0] == e);
    assert(s.po(w));
    r
}
// what the sweep has not come to is as the upward search left it
pub open spec fn unswept(s: &S, n: int, w: &TimestampFlags, td: Seq<u32>, pa: Seq<u32>, sel: Seq<u32>, cnt: int) -> bool {
    forall|v: int| 0 <= v < n && !insel(sel, cnt, v) ==> (#[trigger] w.flag(v) == s.w.flag(v)) && td[v] == s.td[v] && pa[v] == s.pa[v]
}
pub proof fn lemma_empty_queue(q: &MinIDQueue)
    requires q.wf(), q.heap_size == 0,
    ensures forall|i: int| !#[trigger] q.has(i)
{}
