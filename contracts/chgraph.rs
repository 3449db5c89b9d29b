pub open spec fn INF() -> int { 2147483647 }
pub open spec fn INV() -> int { 0xFFFF_FFFF }
// one side of a contraction hierarchy: the arcs leading upwards
pub struct Up { pub fo: Seq<u32>, pub head: Seq<u32>, pub wt: Seq<u32> }
impl Up {
    pub open spec fn n(&self) -> int { self.fo.len() - 1 }
    pub open spec fn arc(&self, v: int, a: int) -> bool { 0 <= v < self.n() && self.fo[v] <= a < self.fo[v + 1] }
    pub open spec fn wf(&self, n: int) -> bool {
        &&& self.fo.len() == n + 1 && n < 0x4000_0000
        &&& self.fo[n] == self.head.len() && self.head.len() == self.wt.len()
        &&& forall|i: int, j: int| 0 <= i <= j <= n ==> #[trigger] self.fo[i] <= #[trigger] self.fo[j]
        &&& forall|a: int| 0 <= a < self.wt.len() ==> (#[trigger] self.wt[a]) <= INF()
        &&& forall|v: int, a: int| #[trigger] self.arc(v, a) ==> v < self.head[a] < n
    }
}
// the hierarchy: f holds the upward arcs, b the downward arcs with both ends exchanged
pub struct H { pub f: Up, pub b: Up }
pub open spec fn rev(h: H) -> H { H { f: h.b, b: h.f } }
// a step from u to v of weight w along arc a
pub struct St { pub u: int, pub v: int, pub w: int, pub a: int }
pub open spec fn rs(s: St) -> St { St { u: s.v, v: s.u, w: s.w, a: s.a } }
pub open spec fn ups(x: Up, s: St) -> bool { x.arc(s.u, s.a) && x.head[s.a] == s.v && x.wt[s.a] == s.w }
pub open spec fn step(h: H, s: St) -> bool { ups(h.f, s) || ups(h.b, rs(s)) }
pub open spec fn walk(h: H, p: Seq<St>, u: int, v: int) -> bool
    decreases p.len()
{ if p.len() == 0 { u == v } else { step(h, p[0]) && p[0].u == u && walk(h, p.drop_first(), p[0].v, v) } }
pub open spec fn up(x: Up, p: Seq<St>, u: int, v: int) -> bool
    decreases p.len()
{ if p.len() == 0 { u == v } else { ups(x, p[0]) && p[0].u == u && up(x, p.drop_first(), p[0].v, v) } }
pub open spec fn wl(p: Seq<St>) -> int
    decreases p.len()
{ if p.len() == 0 { 0 } else { p[0].w + wl(p.drop_first()) } }
pub open spec fn rp(p: Seq<St>) -> Seq<St>
    decreases p.len()
{ if p.len() == 0 { p } else { rp(p.drop_first()).push(rs(p[0])) } }
// some up-down path from u to v is no longer than l
pub open spec fn updown(h: H, u: int, v: int, m: int, p: Seq<St>, q: Seq<St>) -> bool { up(h.f, p, u, m) && up(h.b, q, v, m) }
pub open spec fn udp(h: H, u: int, v: int, l: int) -> bool { exists|m: int, p: Seq<St>, q: Seq<St>| #[trigger] updown(h, u, v, m, p, q) && wl(p) + wl(q) <= l }
// the defining property of a contraction hierarchy
#[verifier::opaque]
pub open spec fn ud(h: H) -> bool { forall|p: Seq<St>, u: int, v: int| #[trigger] walk(h, p, u, v) ==> udp(h, u, v, wl(p)) }
pub open spec fn hwf(h: H, n: int) -> bool { h.f.wf(n) && h.b.wf(n) && n >= 0 }

pub proof fn lemma_cat(h: H, p: Seq<St>, q: Seq<St>, u: int, x: int, v: int)
    requires walk(h, p, u, x), walk(h, q, x, v),
    ensures walk(h, p + q, u, v), wl(p + q) == wl(p) + wl(q)
    decreases p.len()
{
    if p.len() == 0 { assert(p + q =~= q); }
    else { lemma_cat(h, p.drop_first(), q, p[0].v, x, v); assert((p + q).drop_first() =~= p.drop_first() + q); assert((p + q)[0] == p[0]); }
}
pub proof fn lemma_single(h: H, s: St)
    requires step(h, s),
    ensures walk(h, seq![s], s.u, s.v), wl(seq![s]) == s.w
{ let p = seq![s]; assert(p.drop_first() =~= Seq::<St>::empty()); assert(walk(h, p.drop_first(), s.v, s.v)); assert(wl(p.drop_first()) == 0); }
pub proof fn lemma_rev_walk(h: H, p: Seq<St>, u: int, v: int)
    requires walk(h, p, u, v),
    ensures walk(rev(h), rp(p), v, u), wl(rp(p)) == wl(p)
    decreases p.len()
{
    if p.len() > 0 {
        lemma_rev_walk(h, p.drop_first(), p[0].v, v);
        let s = rs(p[0]);
        assert(rs(s) == p[0]);
        assert(step(rev(h), s));
        lemma_single(rev(h), s);
        lemma_cat(rev(h), rp(p.drop_first()), seq![s], v, s.u, s.v);
        assert(rp(p) =~= rp(p.drop_first()) + seq![s]);
    }
}
pub proof fn lemma_up_walk(h: H, p: Seq<St>, u: int, v: int)
    requires up(h.f, p, u, v),
    ensures walk(h, p, u, v)
    decreases p.len()
{ if p.len() > 0 { lemma_up_walk(h, p.drop_first(), p[0].v, v); } }
pub proof fn lemma_up_rank(x: Up, n: int, p: Seq<St>, u: int, v: int)
    requires x.wf(n), up(x, p, u, v),
    ensures u <= v, p.len() > 0 ==> u < v && 0 <= u && v < n, wl(p) >= 0
    decreases p.len()
{ if p.len() > 0 { lemma_up_rank(x, n, p.drop_first(), p[0].v, v); } }
pub proof fn lemma_wl_nonneg(h: H, p: Seq<St>, u: int, v: int)
    requires walk(h, p, u, v),
    ensures wl(p) >= 0
    decreases p.len()
{ if p.len() > 0 { lemma_wl_nonneg(h, p.drop_first(), p[0].v, v); } }
pub proof fn lemma_ud_open(h: H, p: Seq<St>, u: int, v: int) -> (r: (int, Seq<St>, Seq<St>))
    requires ud(h), walk(h, p, u, v),
    ensures up(h.f, r.1, u, r.0), up(h.b, r.2, v, r.0), wl(r.1) + wl(r.2) <= wl(p)
{
    reveal(ud);
    assert(udp(h, u, v, wl(p)));
    let (m, p1, p2) = choose|m: int, p1: Seq<St>, p2: Seq<St>| #[trigger] updown(h, u, v, m, p1, p2) && wl(p1) + wl(p2) <= wl(p);
    (m, p1, p2)
}
pub proof fn lemma_ud_rev(h: H)
    requires ud(h),
    ensures ud(rev(h))
{
    assert forall|p: Seq<St>, u: int, v: int| #[trigger] walk(rev(h), p, u, v) implies udp(rev(h), u, v, wl(p)) by {
        lemma_rev_walk(rev(h), p, u, v);
        assert(rev(rev(h)) == h);
        let (m, p1, p2) = lemma_ud_open(h, rp(p), v, u);
        assert(updown(rev(h), u, v, m, p2, p1));
    }
    reveal(ud);
}
// ---- distances
// v is reached from a source at cost d (the costs of the sources are src)
pub open spec fn reach_by(h: H, src: Map<int, int>, v: int, d: int, s: int, p: Seq<St>) -> bool { src.contains_key(s) && walk(h, p, s, v) && d == src[s] + wl(p) }
#[verifier::opaque]
pub open spec fn reach(h: H, src: Map<int, int>, v: int, d: int) -> bool { exists|s: int, p: Seq<St>| #[trigger] reach_by(h, src, v, d, s, p) }
pub proof fn reach_intro(h: H, src: Map<int, int>, v: int, d: int, s: int, p: Seq<St>)
    requires src.contains_key(s), walk(h, p, s, v), d == src[s] + wl(p),
    ensures reach(h, src, v, d)
{ reveal(reach); assert(reach_by(h, src, v, d, s, p)); }
pub proof fn reach_open(h: H, src: Map<int, int>, v: int, d: int) -> (r: (int, Seq<St>))
    requires reach(h, src, v, d),
    ensures src.contains_key(r.0), walk(h, r.1, r.0, v), d == src[r.0] + wl(r.1), wl(r.1) >= 0
{ reveal(reach); let (s, p) = choose|s: int, p: Seq<St>| #[trigger] reach_by(h, src, v, d, s, p); lemma_wl_nonneg(h, p, s, v); (s, p) }
pub proof fn reach_walk(h: H, src: Map<int, int>, u: int, v: int, d: int, p: Seq<St>)
    requires reach(h, src, u, d), walk(h, p, u, v),
    ensures reach(h, src, v, d + wl(p))
{ let (s, q) = reach_open(h, src, u, d); lemma_cat(h, q, p, s, u, v); reach_intro(h, src, v, d + wl(p), s, q + p); }
pub proof fn reach_step(h: H, src: Map<int, int>, d: int, s: St)
    requires reach(h, src, s.u, d), step(h, s),
    ensures reach(h, src, s.v, d + s.w)
{ lemma_single(h, s); reach_walk(h, src, s.u, s.v, d, seq![s]); }
pub open spec fn ends_ok(src: Map<int, int>, n: int) -> bool { forall|s: int| #[trigger] src.contains_key(s) ==> 0 <= s < n && 0 <= src[s] < INF() }
// a connection from a source via a walk to a target, of total cost d
pub open spec fn conn(h: H, src: Map<int, int>, tgt: Map<int, int>, s: int, t: int, p: Seq<St>, d: int) -> bool {
    src.contains_key(s) && tgt.contains_key(t) && walk(h, p, s, t) && d == src[s] + wl(p) + tgt[t]
}
pub open spec fn tot(h: H, src: Map<int, int>, tgt: Map<int, int>, d: int) -> bool { exists|s: int, t: int, p: Seq<St>| #[trigger] conn(h, src, tgt, s, t, p, d) }
// the shortest connection, where everything from INF on counts as not connected
pub open spec fn shortest(h: H, src: Map<int, int>, tgt: Map<int, int>, d: int) -> bool {
    &&& forall|e: int| #[trigger] tot(h, src, tgt, e) ==> d <= e || INF() <= e
    &&& d <= INF() && (d < INF() ==> tot(h, src, tgt, d))
}
// v lies on a connection: cost a up to v, cost b from v on
pub open spec fn on(h: H, src: Map<int, int>, tgt: Map<int, int>, v: int, a: int, b: int) -> bool { reach(h, src, v, a) && reach(rev(h), tgt, v, b) }
pub proof fn lemma_on_tot(h: H, src: Map<int, int>, tgt: Map<int, int>, v: int, a: int, b: int) -> (r: (int, int, Seq<St>))
    requires on(h, src, tgt, v, a, b),
    ensures tot(h, src, tgt, a + b), conn(h, src, tgt, r.0, r.1, r.2, a + b)
{
    let (s, p) = reach_open(h, src, v, a);
    let (t, q) = reach_open(rev(h), tgt, v, b);
    lemma_rev_walk(rev(h), q, t, v);
    assert(rev(rev(h)) == h);
    lemma_cat(h, p, rp(q), s, v, t);
    assert(conn(h, src, tgt, s, t, p + rp(q), a + b));
    (s, t, p + rp(q))
}
pub proof fn lemma_tot_on(h: H, src: Map<int, int>, tgt: Map<int, int>, d: int) -> (r: (int, int, int))
    requires tot(h, src, tgt, d),
    ensures on(h, src, tgt, r.0, r.1, r.2), r.1 + r.2 == d, src.contains_key(r.0)
{
    let (s, t, p) = choose|s: int, t: int, p: Seq<St>| #[trigger] conn(h, src, tgt, s, t, p, d);
    lemma_rev_walk(h, p, s, t);
    reach_intro(rev(h), tgt, s, tgt[t] + wl(p), t, rp(p));
    assert(walk(h, Seq::<St>::empty(), s, s)); assert(wl(Seq::<St>::empty()) == 0);
    reach_intro(h, src, s, src[s], s, Seq::<St>::empty());
    (s, src[s], tgt[t] + wl(p))
}
// ---- the best connection and the highest node on any best connection
pub open spec fn top(h: H, src: Map<int, int>, tgt: Map<int, int>, m: int, a: int, b: int) -> bool {
    &&& on(h, src, tgt, m, a, b)
    &&& forall|v: int, c: int, d: int| #[trigger] on(h, src, tgt, v, c, d) ==> a + b <= c + d && (c + d == a + b ==> v <= m)
}
pub proof fn lemma_least(h: H, src: Map<int, int>, tgt: Map<int, int>, n: int, v: int, a: int, b: int) -> (r: (int, int, int))
    requires on(h, src, tgt, v, a, b), ends_ok(src, n), ends_ok(tgt, n),
    ensures on(h, src, tgt, r.0, r.1, r.2), r.1 + r.2 <= a + b, forall|x: int, c: int, d: int| #[trigger] on(h, src, tgt, x, c, d) ==> r.1 + r.2 <= c + d
    decreases a + b
{
    if forall|x: int, c: int, d: int| #[trigger] on(h, src, tgt, x, c, d) ==> a + b <= c + d { (v, a, b) }
    else {
        let (x, c, d) = choose|x: int, c: int, d: int| #[trigger] on(h, src, tgt, x, c, d) && c + d < a + b;
        let (s, p) = reach_open(h, src, x, c); let (t, q) = reach_open(rev(h), tgt, x, d);
        lemma_least(h, src, tgt, n, x, c, d)
    }
}
pub proof fn lemma_reach_range(h: H, src: Map<int, int>, n: int, v: int, a: int)
    requires hwf(h, n), ends_ok(src, n), reach(h, src, v, a),
    ensures 0 <= v < n, a >= 0
{ let (s, p) = reach_open(h, src, v, a); lemma_walk_range(h, n, p, s, v); }
pub proof fn lemma_walk_range(h: H, n: int, p: Seq<St>, u: int, v: int)
    requires hwf(h, n), walk(h, p, u, v), 0 <= u < n,
    ensures 0 <= v < n
    decreases p.len()
{ if p.len() > 0 { lemma_walk_range(h, n, p.drop_first(), p[0].v, v); } }
pub proof fn lemma_top(h: H, src: Map<int, int>, tgt: Map<int, int>, n: int, m: int, a: int, b: int) -> (r: (int, int, int))
    requires hwf(h, n), ends_ok(src, n), ends_ok(tgt, n), on(h, src, tgt, m, a, b), forall|x: int, c: int, d: int| #[trigger] on(h, src, tgt, x, c, d) ==> a + b <= c + d,
    ensures top(h, src, tgt, r.0, r.1, r.2), r.1 + r.2 == a + b
    decreases n - m
{
    lemma_reach_range(h, src, n, m, a);
    if forall|x: int, c: int, d: int| #[trigger] on(h, src, tgt, x, c, d) && c + d == a + b ==> x <= m { (m, a, b) }
    else {
        let (x, c, d) = choose|x: int, c: int, d: int| #[trigger] on(h, src, tgt, x, c, d) && c + d == a + b && x > m;
        lemma_reach_range(h, src, n, x, c);
        lemma_top(h, src, tgt, n, x, c, d)
    }
}
// the walk from any source to the top node is an upward path
pub proof fn lemma_top_up(h: H, src: Map<int, int>, tgt: Map<int, int>, n: int, m: int, a: int, b: int, x: int, d: int, p: Seq<St>) -> (r: Seq<St>)
    requires hwf(h, n), ud(h), top(h, src, tgt, m, a, b), reach(h, src, x, d), walk(h, p, x, m), d + wl(p) <= a,
    ensures up(h.f, r, x, m), wl(r) <= wl(p)
{
    let (z, p1, p2) = lemma_ud_open(h, p, x, m);
    lemma_up_walk(h, p1, x, z);
    lemma_up_walk(rev(h), p2, m, z);
    reach_walk(h, src, x, z, d, p1);
    reach_walk(rev(h), tgt, m, z, b, p2);
    lemma_up_rank(h.b, n, p2, m, z); lemma_up_rank(h.f, n, p1, x, z);
    assert(on(h, src, tgt, z, d + wl(p1), b + wl(p2)));
    assert(z == m);
    p1
}
