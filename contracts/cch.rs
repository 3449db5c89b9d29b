pub open spec fn min2(a: int, b: int) -> int { if b < a { b } else { a } }
// least weight of the input arcs arr[lo..hi], and v
pub open spec fn fold_min(w: Seq<u32>, arr: Seq<u32>, lo: int, hi: int, v: int) -> int
    decreases hi - lo
{ if hi <= lo { v } else { min2(fold_min(w, arr, lo, hi - 1, v), w[arr[hi - 1] as int] as int) } }
pub open spec fn first_w(w: Seq<u32>, j: u32) -> int { if j != 0xFFFF_FFFFu32 { w[j as int] as int } else { INF() } }

impl CustomizableContractionHierarchy {
    // least input weight of an arc in each direction
    pub open spec fn initf(&self, w: Seq<u32>, a: int) -> int {
        if !self.has_in(a) { INF() } else {
            let v = first_w(w, self.forward_input_arc_of_cch@[self.loc(a)]);
            if !self.has_ex(a) { v } else {
                fold_min(w, self.extra_forward_input_arc_of_cch@, self.first_extra_forward_input_arc_of_cch@[self.exl(a)] as int, self.first_extra_forward_input_arc_of_cch@[self.exl(a) + 1] as int, v)
            }
        }
    }
    pub open spec fn initb(&self, w: Seq<u32>, a: int) -> int {
        if !self.has_in(a) { INF() } else {
            let v = first_w(w, self.backward_input_arc_of_cch@[self.loc(a)]);
            if !self.has_ex(a) { v } else {
                fold_min(w, self.extra_backward_input_arc_of_cch@, self.first_extra_backward_input_arc_of_cch@[self.exl(a)] as int, self.first_extra_backward_input_arc_of_cch@[self.exl(a) + 1] as int, v)
            }
        }
    }
    pub open spec fn weights_ok(&self, w: Seq<u32>) -> bool {
        w.len() == self.k() && forall|j: int| 0 <= j < w.len() ==> #[trigger] w[j] <= INF()
    }
    // lower triangle inequality at one triangle
    pub open spec fn le_tri(&self, f: Seq<u32>, g: Seq<u32>, b: int, m: int, t: int) -> bool {
        f[t] <= g[b] + f[m] && g[t] <= f[b] + g[m]
    }
    #[verifier::opaque]
    pub open spec fn witf(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, t: int) -> bool {
        f[t] == self.initf(w, t) || exists|b: int, m: int| #[trigger] self.tri(b, m, t) && f[t] == g[b] + f[m]
    }
    #[verifier::opaque]
    pub open spec fn witb(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, t: int) -> bool {
        g[t] == self.initb(w, t) || exists|b: int, m: int| #[trigger] self.tri(b, m, t) && g[t] == f[b] + g[m]
    }
    // the weights of arc t are final: the least of the input weights and the sums over lower triangles
    pub open spec fn local(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, t: int) -> bool {
        &&& f[t] <= self.initf(w, t) && g[t] <= self.initb(w, t)
        &&& forall|b: int, m: int| #[trigger] self.tri(b, m, t) ==> self.le_tri(f, g, b, m, t)
        &&& self.witf(w, f, g, t) && self.witb(w, f, g, t)
    }
    pub open spec fn customized(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>) -> bool {
        f.len() == self.m() && g.len() == self.m() && forall|t: int| #[trigger] self.arc(t) ==> self.local(w, f, g, t)
    }
    pub open spec fn bounded(&self, f: Seq<u32>, g: Seq<u32>) -> bool {
        f.len() == self.m() && g.len() == self.m() && forall|t: int| #[trigger] self.arc(t) ==> f[t] <= INF() && g[t] <= INF()
    }
}
impl CustomizableContractionHierarchyMetric {
    pub open spec fn c(&self) -> CCH { self.cch.val() }
    pub open spec fn w(&self) -> Seq<u32> { self.input_weight.val()@ }
    pub open spec fn shape(&self) -> bool {
        &&& !self.cch.null() && self.c().wf()
        &&& !self.input_weight.null() && self.c().weights_ok(self.w())
        &&& self.forward@.len() == self.c().m() && self.backward@.len() == self.c().m()
    }
}
pub proof fn lemma_fold_bounds(w: Seq<u32>, arr: Seq<u32>, lo: int, hi: int, v: int)
    requires 0 <= v <= INF(), forall|j: int| lo <= j < hi ==> (#[trigger] arr[j]) < w.len(),
    ensures 0 <= fold_min(w, arr, lo, hi, v) <= v
    decreases hi - lo
{ if hi > lo { lemma_fold_bounds(w, arr, lo, hi - 1, v); } }
pub proof fn lemma_init_bounds(c: &CCH, w: Seq<u32>, a: int)
    requires c.wf_in(), c.weights_ok(w), c.arc(a),
    ensures 0 <= c.initf(w, a) <= INF(), 0 <= c.initb(w, a) <= INF()
{
    if c.has_in(a) {
        let vf = first_w(w, c.forward_input_arc_of_cch@[c.loc(a)]); let vb = first_w(w, c.backward_input_arc_of_cch@[c.loc(a)]);
        if c.has_ex(a) {
            let e = c.exl(a);
            lemma_fold_bounds(w, c.extra_forward_input_arc_of_cch@, c.first_extra_forward_input_arc_of_cch@[e] as int, c.first_extra_forward_input_arc_of_cch@[e + 1] as int, vf);
            lemma_fold_bounds(w, c.extra_backward_input_arc_of_cch@, c.first_extra_backward_input_arc_of_cch@[e] as int, c.first_extra_backward_input_arc_of_cch@[e + 1] as int, vb);
        }
    }
}
pub proof fn open_chordal(c: &CCH, b: int, m: int) -> (t: int)
    requires c.chordal(), c.arc(b), c.arc(m), b < m, c.tl(b) == c.tl(m), (c.can(b, false) && c.can(m, true)) || (c.can(b, true) && c.can(m, false)),
    ensures c.tri(b, m, t)
{ reveal(CustomizableContractionHierarchy::chordal); choose|t: int| c.tri(b, m, t) }
pub proof fn open_witf(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, t: int) -> (r: (int, int))
    requires c.witf(w, f, g, t), f[t] != c.initf(w, t),
    ensures c.tri(r.0, r.1, t), f[t] == g[r.0] + f[r.1]
{ reveal(CustomizableContractionHierarchy::witf); choose|b: int, m: int| #[trigger] c.tri(b, m, t) && f[t] == g[b] + f[m] }
pub proof fn open_witb(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, t: int) -> (r: (int, int))
    requires c.witb(w, f, g, t), g[t] != c.initb(w, t),
    ensures c.tri(r.0, r.1, t), g[t] == f[r.0] + g[r.1]
{ reveal(CustomizableContractionHierarchy::witb); choose|b: int, m: int| #[trigger] c.tri(b, m, t) && g[t] == f[b] + g[m] }
pub proof fn intro_witf(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, b: int, m: int, t: int)
    requires f[t] == c.initf(w, t) || (c.tri(b, m, t) && f[t] == g[b] + f[m]),
    ensures c.witf(w, f, g, t)
{ reveal(CustomizableContractionHierarchy::witf); }
pub proof fn intro_witb(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, b: int, m: int, t: int)
    requires g[t] == c.initb(w, t) || (c.tri(b, m, t) && g[t] == f[b] + g[m]),
    ensures c.witb(w, f, g, t)
{ reveal(CustomizableContractionHierarchy::witb); }
// customized weights are unique
pub proof fn lemma_unique(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, f2: Seq<u32>, g2: Seq<u32>, t: int)
    requires c.wf_up(), c.customized(w, f, g), c.customized(w, f2, g2), c.arc(t),
    ensures f[t] == f2[t] && g[t] == g2[t]
    decreases t
{
    assert(c.local(w, f, g, t)); assert(c.local(w, f2, g2, t));
    assert forall|b: int, m: int| #[trigger] c.tri(b, m, t) implies f[b] == f2[b] && g[b] == g2[b] && f[m] == f2[m] && g[m] == g2[m] by {
        lemma_lower(c, b, m, t);
        lemma_unique(c, w, f, g, f2, g2, b); lemma_unique(c, w, f, g, f2, g2, m);
    }
    if f[t] != c.initf(w, t) { let (b, m) = open_witf(c, w, f, g, t); assert(c.le_tri(f2, g2, b, m, t)); }
    if f2[t] != c.initf(w, t) { let (b, m) = open_witf(c, w, f2, g2, t); assert(c.le_tri(f, g, b, m, t)); }
    if g[t] != c.initb(w, t) { let (b, m) = open_witb(c, w, f, g, t); assert(c.le_tri(f2, g2, b, m, t)); }
    if g2[t] != c.initb(w, t) { let (b, m) = open_witb(c, w, f2, g2, t); assert(c.le_tri(f, g, b, m, t)); }
}
// arcs of lower nodes have lower ids
pub proof fn lemma_lower(c: &CCH, b: int, m: int, t: int)
    requires c.wf_up(), c.tri(b, m, t),
    ensures b < m < t, c.tl(b) < c.tl(t) < c.hd(t)
{
    assert(c.hd(b) == c.tl(t) && c.tl(t) < c.hd(t));
    assert(c.up_first_out@[c.tl(b) + 1] <= c.up_first_out@[c.tl(t)]);
}
pub proof fn lemma_range(c: &CCH, a: int, x: int)
    requires c.wf_up(), 0 <= x < c.n(), c.up_first_out@[x] <= a < c.up_first_out@[x + 1],
    ensures c.arc(a), c.tl(a) == x
{
    assert(c.up_first_out@[x + 1] <= c.up_first_out@[c.n()]);
    assert(c.arc(a));
    if c.tl(a) < x { assert(c.up_first_out@[c.tl(a) + 1] <= c.up_first_out@[x]); }
    if c.tl(a) > x { assert(c.up_first_out@[x + 1] <= c.up_first_out@[c.tl(a)]); }
}

impl CustomizableContractionHierarchy {
    pub open spec fn lower_ok(&self, f: Seq<u32>, g: Seq<u32>, t: int) -> bool {
        forall|b: int, m: int| #[trigger] self.tri(b, m, t) ==> self.le_tri(f, g, b, m, t)
    }
    // state of the customization while node x is processed
    pub open spec fn cust_inv(&self, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, x: int) -> bool {
        &&& f.len() == self.m() && g.len() == self.m()
        &&& forall|t: int| #[trigger] self.arc(t) ==> f[t] <= self.initf(w, t) && g[t] <= self.initb(w, t) && f[t] <= INF() && g[t] <= INF()
        &&& forall|t: int| #[trigger] self.arc(t) ==> self.witf(w, f, g, t) && self.witb(w, f, g, t)
        &&& forall|t: int| #[trigger] self.arc(t) && self.tl(t) < x ==> self.lower_ok(f, g, t)
        &&& forall|t: int| #[trigger] self.arc(t) && self.tl(t) > x ==> f[t] == self.initf(w, t) && g[t] == self.initb(w, t)
    }
    pub open spec fn done(&self, f: Seq<u32>, g: Seq<u32>, x: int, d1: int) -> bool {
        forall|b: int, m: int, t: int, d: int| #[trigger] self.tri(b, m, t) && self.tl(t) == x && #[trigger] self.down(d, x) && self.down_to_up@[d] == b && d < d1 ==> self.le_tri(f, g, b, m, t)
    }
    pub open spec fn done1(&self, f: Seq<u32>, g: Seq<u32>, b: int, lo: int) -> bool {
        forall|m: int, t: int| #[trigger] self.tri(b, m, t) && m >= lo ==> self.le_tri(f, g, b, m, t)
    }
    pub open spec fn cache_ok(&self, cache: Seq<u32>, x: int) -> bool {
        &&& cache.len() == self.n()
        &&& forall|a: int| #[trigger] self.arc(a) && self.tl(a) == x ==> cache[self.hd(a)] == a
        &&& forall|z: int| 0 <= z < self.n() ==> #[trigger] cache[z] == 0 || cache[z] < self.m()
    }
}
pub proof fn lemma_arc_unique(c: &CCH, a: int, b: int)
    requires c.wf_up(), c.arc(a), c.arc(b), c.tl(a) == c.tl(b), c.hd(a) == c.hd(b),
    ensures a == b
{ }
// a weight less than infinity is possible
pub proof fn lemma_can(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, a: int)
    requires c.wf_up(), c.wf_in(), c.weights_ok(w), c.arc(a),
        forall|t: int| #[trigger] c.arc(t) ==> c.witf(w, f, g, t) && c.witb(w, f, g, t),
    ensures f[a] < INF() ==> c.can(a, true), g[a] < INF() ==> c.can(a, false)
    decreases a
{
    assert(c.witf(w, f, g, a) && c.witb(w, f, g, a));
    if f[a] < INF() {
        if f[a] == c.initf(w, a) { assert(c.has_dir(a, true)); }
        else {
            let (b, m) = open_witf(c, w, f, g, a);
            lemma_lower(c, b, m, a); lemma_can(c, w, f, g, b); lemma_can(c, w, f, g, m);
        }
    }
    if g[a] < INF() {
        if g[a] == c.initb(w, a) { assert(c.has_dir(a, false)); }
        else {
            let (b, m) = open_witb(c, w, f, g, a);
            lemma_lower(c, b, m, a); lemma_can(c, w, f, g, b); lemma_can(c, w, f, g, m);
        }
    }
}
pub proof fn lemma_relax(c: &CCH, w: Seq<u32>, f: Seq<u32>, g: Seq<u32>, f2: Seq<u32>, g2: Seq<u32>, cache: Seq<u32>, x: int, d: int, b: int, m: int)
    requires c.wf(), c.weights_ok(w), c.cust_inv(w, f, g, x), c.done(f, g, x, d), c.done1(f, g, b, m + 1), c.cache_ok(cache, x),
        c.arc(b), c.arc(m), c.hd(b) == x, c.tl(m) == c.tl(b), c.hd(m) > x,
        f2 == f.update(cache[c.hd(m)] as int, min2(f[cache[c.hd(m)] as int] as int, g[b] + f[m]) as u32),
        g2 == g.update(cache[c.hd(m)] as int, min2(g[cache[c.hd(m)] as int] as int, f[b] + g[m]) as u32),
    ensures c.cust_inv(w, f2, g2, x), c.done(f2, g2, x, d), c.done1(f2, g2, b, m),
{
    let a = cache[c.hd(m)] as int;
    assert(c.arc(a));
    assert(b < m);
    if exists|t: int| c.tri(b, m, t) {
        let t = choose|t: int| c.tri(b, m, t);
        assert(a == t);
        assert forall|b2: int, m2: int, t2: int| #[trigger] c.tri(b2, m2, t2) && c.tl(t2) <= x implies f2[b2] == f[b2] && g2[b2] == g[b2] && f2[m2] == f[m2] && g2[m2] == g[m2] by {
            lemma_lower(c, b2, m2, t2);
        }
        assert forall|u: int| #[trigger] c.arc(u) implies c.witf(w, f2, g2, u) && c.witb(w, f2, g2, u) by {
            assert(c.witf(w, f, g, u) && c.witb(w, f, g, u));
            if c.tl(u) <= x {
                if f2[u] == c.initf(w, u) || (u == a && f2[u] != f[u]) { intro_witf(c, w, f2, g2, b, m, u); }
                else { let (p, q) = open_witf(c, w, f, g, u); intro_witf(c, w, f2, g2, p, q, u); }
                if g2[u] == c.initb(w, u) || (u == a && g2[u] != g[u]) { intro_witb(c, w, f2, g2, b, m, u); }
                else { let (p, q) = open_witb(c, w, f, g, u); intro_witb(c, w, f2, g2, p, q, u); }
            } else { intro_witf(c, w, f2, g2, b, m, u); intro_witb(c, w, f2, g2, b, m, u); }
        }
        assert forall|u: int| #[trigger] c.arc(u) && c.tl(u) < x implies c.lower_ok(f2, g2, u) by {
            assert(c.lower_ok(f, g, u));
            assert forall|p: int, q: int| #[trigger] c.tri(p, q, u) implies c.le_tri(f2, g2, p, q, u) by { assert(c.le_tri(f, g, p, q, u)); }
        }
        assert forall|m2: int, t2: int| #[trigger] c.tri(b, m2, t2) && m2 >= m implies c.le_tri(f2, g2, b, m2, t2) by {
            if m2 == m { lemma_arc_unique(c, t2, t); } else { assert(c.le_tri(f, g, b, m2, t2)); }
        }
        assert forall|b2: int, m2: int, t2: int, e: int| #[trigger] c.tri(b2, m2, t2) && c.tl(t2) == x && #[trigger] c.down(e, x) && c.down_to_up@[e] == b2 && e < d implies c.le_tri(f2, g2, b2, m2, t2) by {
            assert(c.le_tri(f, g, b2, m2, t2));
        }
    } else {
        lemma_can(c, w, f, g, b); lemma_can(c, w, f, g, m);
        if g[b] + f[m] < INF() || f[b] + g[m] < INF() { let t = open_chordal(c, b, m); }
        assert(f2 =~= f); assert(g2 =~= g);
    }
}
